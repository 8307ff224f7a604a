#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of semantic properties)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, **({"state": state} if state else {}),
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or [], hook_needed=None)))

# ---- concurrency and the generation pipeline
p("C01", "Devices are safe for concurrent use",
  "Any mix of public operations on one device may run at the same time as each other and as a running generator: all of the device's own data (identity, navigation, speed, battery, sensor list, status, reported state) is touched only while that device's lock is held, exclusively whenever the operation modifies anything. The lock is released on every way out of an operation and is never taken again by its holder. What an operation hands back is never the device's live reported state or its internal lists, so a caller can read the result without a lock.",
  ["schedules", "programs"], "every public device operation x every other public device operation x every interleaving with a generator",
  "Tests call the operations one after another on a single goroutine; no test runs under the race detector with a concurrent generator, and a lockless read passes every sequential test.",
  ["device.go", "generator.go", "io.go"], [("read/write lock taken at the start of each operation", "device.go: Device methods"), ("copy of the reported state", "device.go: State")],
  [dict(name="device data", meaning="status, navigator, speed, battery, sensors, reported state", where="device.go: Device")], ["go test -race on two goroutines", "data returned by State while the generator runs"])
p("C02", "Generator bookkeeping is race free and cannot deadlock",
  "The generator's device list, packet buffer and callbacks are shared by callers, the tick loop, the encoding workers and the next-tick notifier; whenever one of them modifies such data, every other access from another goroutine is excluded by a common lock held around both. Locks are released on every way out, never re-acquired by their holder and always nested in one global order. No packet, error or next-tick callback is invoked, and no waiting for another goroutine happens, while a generator lock is held, so callbacks may themselves use the generator.",
  ["schedules", "programs"], "every pair of accesses from different goroutines, every interleaving of attach/detach/lookup/callback registration with running ticks",
  "The tests attach devices before Run and never change callbacks or membership while ticking, so neither a racing access nor a callback under a lock is exercised.",
  ["generator.go", "random/random.go"], [("device-list lock, packet lock", "generator.go"), ("locked random source", "random/random.go")], None, ["go test -race with Attach/Detach/OnPacket during Run"])
p("C03", "Closing a generator always ends Run",
  "After Close has been called, at any moment and in any state of the pipeline, Run returns after a bounded amount of further work and every goroutine it started has ended. No goroutine of the pipeline waits on another one without also watching for the close signal, and none keeps looping once it has seen that signal.",
  ["schedules"], "every moment at which Close may happen, every number of workers and devices",
  "The existing tests close at one quiet moment (between ticks); the hang needs Close to land between two steps of the hand-off between tick loop and workers.",
  ["generator.go"], [("cancellation context", "generator.go: Close, Run"), ("wait group covering each goroutine", "generator.go: Run")], None, ["Run returns after Close", "goroutine count afterwards"])
p("C04", "Every tick reports every attached device exactly once",
  "On each tick the tick loop advances every attached device once and hands every attached device's state to the encoding workers exactly once, whatever the number of devices, workers and the packet size, including devices at the boundaries of full packets and of per-worker slices. The slices handed to the workers are contiguous, disjoint and cover exactly the filled part of the packet, and the loop waits for exactly as many acknowledgements as slices it handed out, each worker acknowledging each slice once.",
  ["configurations", "inputs"], "every device count, packet size >= 1024, worker count >= 1",
  "Losing a device needs more than 1023 attached devices or a worker count that does not divide the filled part; tests attach a handful.",
  ["generator.go"], [("packet fill loop and full-packet flush", "generator.go: run"), ("slice computation and acknowledgement", "generator.go: flush, doWorker")], None, ["decoded packets of one tick"])
p("C05", "Only fully encoded packets reach the packet callback",
  "The packet callback receives exactly the bytes of a successfully encoded packet that carries the slice's devices and a timestamp; when encoding fails the error goes to the error callback (if one is set) and the packet callback is not invoked for that slice, whether or not an error callback is set. The buffer given to the callback is not reused afterwards. A byte slice that does not decode as a packet yields an error and no packet.",
  ["fault_sequences", "configurations"], "every encoding outcome x every combination of registered callbacks",
  "Tests never make encoding fail without an error callback.",
  ["generator.go", "encoding.go"], [("encode step and callback dispatch", "generator.go: doWorker"), ("packet decoding", "encoding.go")], None, ["OnPacket / OnError callbacks", "PacketFromBytes"])
p("C06", "A device is in the generator's list exactly while it is running",
  "Attaching a device that is not running marks it running and adds it to the generator exactly once; attaching one that already runs fails with an error and changes nothing. Detaching removes exactly the device with the given identifier, keeps all others in order, and marks it stopped. No other operation on a live device, restoring a snapshot into it included, changes whether it is running.",
  ["histories"], "every sequence of attach, detach and restore on any set of devices",
  "Tests try one attach and one detach; they do not restore into an attached device or check the untouched remainder.",
  ["generator.go", "device.go"], [("mount/unmount status change", "device.go"), ("list append/removal", "generator.go: Attach, Detach")], None, ["Attach/Detach results, NumDevices, Status"])
p("C07", "Elapsed time is never lost or counted twice",
  "A device that cannot be advanced because it is busy remembers the missed tick, and the next advance adds every remembered tick to its own interval exactly once, atomically with respect to further misses. That same total interval is what is added to the travelled duration, reported as the tick, drained from the battery and used to move the device. Remembered ticks are kept when an advance does nothing because there is no route.",
  ["schedules", "histories"], "every interleaving of advances with operations that keep the device busy",
  "A lost tick needs a miss between the read and the reset of the counter; the tests only check the counter after one miss.",
  ["device.go"], [("missed-tick counter", "device.go: Next")], None, ["Duration, Tick and position after contended ticks"])
# ---- persistence
p("S01", "A device survives snapshot and restore unchanged",
  "Restoring a device from its own snapshot, directly or through its binary form, reproduces everything observable about it: identity, model, user, colour, description, durations and tick, routes with tracks and segments, position and indices, all distances, offline and elevation state, speed, battery and sensors in order. It does so whatever the target device held before (restoring a snapshot without sensors or with offline mode disabled included), except that running status is not carried over.",
  ["inputs", "histories"], "every device state reachable by any history; every prior content of the target",
  "Tests round-trip a few fresh devices into empty targets; a dropped or crossed field that is zero in those, or left over from the target, is invisible.",
  ["device.go", "navigator/navigator.go", "navigator/route.go", "navigator/route_track.go", "navigator/route_track_segment.go", "types/sensor.go", "types/speed.go", "types/battery.go", "curve/curve.go", "io.go"],
  [("snapshot and restore pairs", "Snapshot/FromSnapshot in device, navigator, types, curve")], None, ["Snapshot of the restored device equals the original snapshot"])
p("S02", "Routes and sensors survive binary encoding unchanged",
  "Encoding a non-empty list of routes or of sensors to binary form and decoding it again yields a list of the same length and order whose elements are observably identical: identifiers, names, colours, properties, versions, distances, tracks, closedness, segments with both end points, bearings, indices and links; sensors with ranges, current values and generating curve. Encoding or decoding nothing is an error.",
  ["inputs"], "every list of routes and of sensors",
  "Tests compare a few lists whose untested fields are zero or equal.",
  ["io.go", "navigator/route.go", "navigator/route_track.go", "navigator/route_track_segment.go", "types/sensor.go", "curve/curve.go"],
  [("encode/decode pairs", "io.go"), ("element snapshot/restore pairs", "navigator, types, curve")], None, ["EncodeRoutes/DecodeRoutes, EncodeSensors/DecodeSensors"])
p("S03", "Decoding arbitrary bytes never crashes",
  "Every public decoder (device, sensors, routes, packet, GeoJSON routes, GPX routes) applied to any byte string either returns an error or a usable result; it never panics. In particular absent sub-messages, empty curves, out-of-range indices, null features or geometries, empty identifiers and missing per-track information in well-formed input cannot cause a nil dereference, an out-of-range index or a failed type assertion.",
  ["inputs"], "all byte strings given to any decoder",
  "Tests decode output of the encoders and a handful of malformed inputs.",
  ["io.go", "encoding.go", "device.go", "navigator/navigator.go", "navigator/route_track_segment.go", "types/sensor.go", "types/speed.go", "types/battery.go", "curve/curve.go", "geojson/encoding.go", "gpx/encoding.go"],
  [("nil and bounds checks in the restore functions", "FromSnapshot family, geojson.Decode, gpx.Decode")], None, ["DecodeTracker/DecodeSensors/DecodeRoutes/DecodeGeoJSONRoutes/DecodeGPXRoutes/PacketFromBytes on fuzzed input"])
p("S04", "Failures are reported, never swallowed",
  "Every error produced while decoding a snapshot, routes, sensors, packet, GeoJSON or GPX, or while constructing a device, track, sensor, speed or navigator from options, reaches the caller as a non-nil error; no public function reports success after a step it needs has failed. A function that returns an error does not use the failed step's result.",
  ["inputs", "fault_sequences"], "every input on which any internal step fails",
  "The failing inner step (one bad route inside a tracker, one bad track) is reached by no test.",
  ["io.go", "device.go", "navigator/navigator.go", "navigator/route.go", "navigator/route_track.go", "geojson/encoding.go", "gpx/encoding.go"],
  [("error returns along the decode call chain", "navigator, io.go, geojson, gpx")], None, ["error result of the decoders"])
p("S05", "The wire schema is stable and the same in every language",
  "The published packet and snapshot message definitions, the Go types compiled into the library, and the JavaScript and TypeScript readers agree on every message, field name, field number and type. A field number, once published, never changes its meaning: existing numbers keep name and type, so that packets and snapshots written by an earlier version still decode.",
  ["programs", "histories"], "every message and field of the schema, every reader language, every earlier version's data",
  "Go tests round-trip through one generated file; renumbering a field or diverging from the JS reader passes all of them.",
  ["proto/gpsgen.proto", "proto/snapshot.proto", "proto/gpsgen.pb.go", "proto/snapshot.pb.go", "proto/gpsgen.ts", "proto/gpsgen_pb.js"],
  [("generated descriptors", "proto/*.pb.go"), ("hand-kept readers", "proto/gpsgen.ts, proto/gpsgen_pb.js")], None, ["bytes on the wire"])
p("G01", "Routes survive GeoJSON export and import",
  "Exporting routes to GeoJSON and importing the result restores each route's identifier, colour, name and user properties and each track's identifier, colour, name, properties and points, track by track in order: the metadata of one track is never attached to another. Reserved metadata always describes the route itself, whatever keys its user properties contain, and does not leak into the imported user properties (a user property that uses a reserved key, routeID, color, name, numTracks, tracksInfo, distance or units, is not carried over). Property values come back as JSON reads them (every number as a floating-point one). A route without tracks has no geometry to export and is left out.",
  ["inputs"], "every list of routes with any number of tracks and any names, colours and properties",
  "Tests export a single-track route or check only counts; swapped or lost metadata of the second track is invisible.",
  ["geojson/encoding.go", "geojson/feature_collection.go", "io.go"], [("feature properties written", "geojson/feature_collection.go"), ("feature properties read", "geojson/encoding.go")], None, ["EncodeGeoJSONRoutes then DecodeGeoJSONRoutes"])
p("G02", "Routes survive GPX export and import",
  "Exporting routes to GPX and importing the result restores each route's identifier, colour and name and each track's identifier, colour, name, properties (as their printed values) and points (to the ten decimals that GPX text holds), track by track in order, including identifiers and names that look like numbers or booleans. GPX keeps property values as text, so a value comes back as the integer, boolean, number or text its printed form reads as; a user property that uses a reserved key (id, color, name, distance, units, tracksInfo, numTracks) is not carried over, and a route without tracks has nothing to export. Importing a foreign GPX file keeps the routes found in every one of its sections (routes, tracks, waypoints).",
  ["inputs"], "every list of routes with any number of tracks and any names and properties; every foreign GPX document",
  "Tests use random UUIDs and words, one section per document, and do not compare track properties.",
  ["gpx/encoding.go", "io.go"], [("extension nodes written and read", "gpx/encoding.go")], None, ["EncodeGPXRoutes then DecodeGPXRoutes"])
# ---- navigation
p("N01", "Position indices always denote existing elements",
  "No public operation of a device, navigator, route, track, sensor or curve can panic on an out-of-range index or an absent element, for any arguments and after any history of operations, including removing tracks or routes behind a device's back, restoring a snapshot and jumping to a distance. Asking for an element that does not exist yields the empty answer.",
  ["histories", "inputs"], "every sequence of operations with any arguments",
  "Index errors need a particular order of moves and removals with several routes.",
  ["navigator/navigator.go", "navigator/route.go", "navigator/route_track.go", "device.go", "curve/curve.go", "random/polygon.go"], [("range checks at each access", "navigator, device")], None, ["any accessor after any history"])
p("N02", "Travelled distances advance together",
  "When a device moves, its travelled distance on the segment, the track, the route and overall all grow by the same amount, interval times speed, and nothing else changes them on that step. Starting a new segment zeroes the segment distance, a new track also the track distance, a new route also the route distance; reaching the end of the last route starts over at the first segment and is reported as finished exactly once.",
  ["histories", "inputs"], "every step of every journey over any routes",
  "Tests look at selected totals on short journeys.",
  ["navigator/navigator.go"], [("distance update and segment/track/route transitions", "navigator/navigator.go")], None, ["CurrentDistance and friends before/after a step"])
p("N03", "Moving to a segment, track or route is exact or has no effect",
  "A move to a route, track or segment is accepted exactly when that element exists and is not already the current one; an accepted move makes it current, puts the device at its starting point, zeroes the travelled distances of every level that changed and takes the device out of offline mode. A refused move, next/previous-route step or jump leaves every observable unchanged.",
  ["inputs", "histories"], "all argument values on all navigator states",
  "Tests use a few valid and invalid indices and do not compare the whole state after a refusal.",
  ["navigator/navigator.go", "device.go"], [("move operations", "navigator/navigator.go: MoveTo*, NextRoute, PrevRoute")], None, ["MoveToRoute/Track/Segment and ByID forms, ToNextRoute, ToPrevRoute"])
p("N04", "Changing routes or tracks refreshes totals, position and version",
  "Adding or removing a route, removing a track through the navigator or clearing the routes leaves the total distance equal to the sum over the remaining routes (and a route's equal to the sum over its tracks), puts the position indices back to the start with zero travelled distances, and increases the version by which the device notices the change. An operation that changes nothing (unknown identifier, duplicate or missing route) leaves list, totals and versions unchanged, and renaming or recolouring increases the version.",
  ["histories"], "every sequence of structural edits",
  "Tests check list lengths, rarely totals and versions after removals.",
  ["navigator/navigator.go", "navigator/route.go", "navigator/route_track.go"], [("recalculation and version bump in the mutators", "navigator")], None, ["Distance, Version, indices after each edit"])
p("N05", "Jumping to a distance lands on the matching place",
  "A jump to a distance is refused when shorter than one metre and limited to the total length; when accepted, the overall travelled distance equals the (limited) target, and route, track and segment indices denote the elements at that distance, with the distances travelled on the segment, track and route equal to the remainders on that segment, track and route. ",
  ["inputs", "histories"], "every distance, any number of routes, tracks and segments",
  "Tests jump on one- or two-route journeys, where a wrong index or remainder is masked.",
  ["navigator/navigator.go"], [("prefix-sum search for route, track and segment", "navigator/navigator.go: DestinationTo")], None, ["DestinationTo, indices and distances"])
p("N06", "Queries do not change what they observe",
  "Read-only operations of devices, navigators, routes, tracks, segments, sensors, speed, battery and curves (accessors, lookups, iteration, snapshots, exports) leave every observable of the object unchanged, version counters included, so calling them any number of times never alters later behaviour. (Asking whether the route is finished consumes that notice, and encoding a device refreshes its reported state as an update does.)",
  ["histories"], "every interleaving of queries into any history",
  "Tests do not compare the state before and after a query.",
  ["device.go", "navigator/navigator.go", "navigator/route.go", "navigator/route_track.go", "types", "curve/curve.go", "geojson", "gpx/encoding.go"], [("absence of writes in accessors", "all packages")], None, ["observables before and after each query"])
p("O01", "An offline device stays put and comes back",
  "While a device is offline it does not move, each advance brings it one step closer to being online again, and its reported offline state and duration match. A device configured to skip offline mode never goes offline, whatever happens (end of track, empty battery, restored snapshot); otherwise the end of a segment chain, track or route, or an empty battery takes it offline for a duration drawn from the configured range.",
  ["histories", "configurations"], "every history of advances in either mode",
  "Tests check one offline episode; restoring into a device of the other mode is not tried.",
  ["navigator/navigator.go", "device.go"], [("offline countdown", "navigator/navigator.go: NextLocation, ToOffline")], None, ["IsOffline, OfflineDuration, Location across advances"])
p("T01", "The reported state mirrors the device",
  "After a successful advance, update or restore, every field of the reported device state equals the corresponding accessor of the device: position, bearing, elevation, indices and identifiers, the eight distances, offline state, battery charge and charge time, speed, each sensor's identifier, name and values in order, and every route and track summary. Identifiers of a current route or track that no longer exists are not reported.",
  ["histories", "inputs"], "every device state after any history",
  "Tests compare a few fields; a crossed pair of similar fields with equal test values is invisible.",
  ["device.go", "navigator/navigator.go", "navigator/location.go"], [("state refresh", "device.go: Next, Update; navigator/navigator.go: Update")], None, ["State compared with accessors"])
# ---- values
p("V01", "Accepted configuration is always within the documented ranges",
  "Every constructor either returns an error or an object whose configuration is in range and ordered: speed 0 <= min <= max <= 1000, battery 0 <= min <= max <= 100 with non-negative charge time, offline duration 0 <= min <= max <= 3600, elevation 0 <= min <= max <= 50000, amplitude 4..512, model 3..64 and names 3..256 bytes, generator packet size >= 1024, workers >= 1 and positive interval. Arguments are numbers; NaN is not considered. Random durations drawn from a range stay inside it.",
  ["inputs", "configurations"], "all numeric and string arguments of every constructor",
  "Tests try a few bad values; reversed or one-sided out-of-range pairs get through.",
  ["types/speed.go", "types/battery.go", "types/random.go", "types/model.go", "types/sensor.go", "types/validator.go", "navigator/options.go", "navigator/types.go", "generator.go"], [("validation in constructors", "types, navigator/options.go, generator.go")], None, ["accessors of constructed objects"])
p("V02", "Reported charge and progress are finite and in range",
  "The battery charge is a number within the configured minimum and maximum at all times, starts full, never rises while draining, is low exactly at its minimum and is full again after a reset, whatever the charge time, zero included. The progress parameter fed to the speed, elevation and sensor curves is always between 0 and 1, and neither the estimated remaining time nor any other number reported for a device is the result of a division by zero, even at zero speed or without routes.",
  ["inputs", "histories"], "every configuration and elapsed time, zero values included",
  "Division by a zero charge time, speed or average time is hit by no assertion in the tests.",
  ["types/battery.go", "device.go"], [("clamping and zero guards", "types/battery.go: Value; device.go")], None, ["Battery charge, TimeEstimate"])
p("K01", "Value curves honour range and mode",
  "A curve's control values all lie between its configured minimum and maximum; in start mode the first and in end mode the last control value is the minimum, and re-shuffling a curve follows the same rules as creating it. The value at any progress is the Bernstein combination of the control values with their binomial weights. Evaluating a curve never changes its control values; at progress 0 it returns its first and at progress 1 its last weighted control value.",
  ["inputs", "histories"], "all ranges, amplitudes, modes, shuffles",
  "Values are random; tests sample the interior and do not compare creation with shuffling.",
  ["curve/curve.go", "types/sensor.go"], [("control value generation", "curve/curve.go: New, Shuffle"), ("evaluation", "curve/curve.go: Point")], None, ["Snapshot control points; Point(0), Point(1)"])
p("R01", "Random geography is valid",
  "Every two-letter country code known to the library, in upper or lower case, has a name and exactly one well-formed bounding box within longitude -180..180 and latitude -90..90 with minimum not above maximum; a random point for a country lies in its box and a world-wide random point within the valid ranges. A random route has the requested number of tracks and valid names, and a random polygon is closed for any number of points.",
  ["inputs", "configurations"], "all country codes, all random outcomes, all counts",
  "Tests sample a few countries and random draws.",
  ["random/latlon.go", "random/polygon.go", "random/random.go", "route.go"], [("country tables", "random/latlon.go"), ("sampling formulas", "random/latlon.go, random/polygon.go")], None, ["BoundingBox, CountryName, LatLon*, Polygon, RandomRoute"])
p("L01", "A track's shape is what its points say",
  "A track built or restored from points has one segment per consecutive pair, in order, joining exactly those two points, with length and bearing computed from that pair, consecutive segments linked to each other and the track's length the sum of its segments; fewer than two points are rejected. A track is closed exactly when it has at least three points and its first and last point are the same.",
  ["inputs"], "all point lists",
  "Tests use a few tracks; swapped coordinates or a comparison of one coordinate only are masked by symmetric data.",
  ["navigator/route_track.go", "navigator/route_track_segment.go", "geo"], [("segment construction", "navigator/route_track_segment.go"), ("closedness test", "navigator/route_track.go")], None, ["segments, Distance, IsClosed of a track"])
p("M01", "Geodesic helpers follow the sphere and never yield NaN",
  "Distance, bearing and destination follow the great-circle formulas on a sphere of radius 6371 km for all coordinates, poles, antimeridian and antipodal points included: no square root, inverse sine or division is applied outside its domain (so no result is NaN), bearings lie in 0..360, destinations in latitude -90..90 and longitude -180..180. A box contains exactly the points between its bounds, its centre is the middle, and normalising coordinates shifts every point by the given origin.",
  ["inputs"], "all coordinates in their valid ranges, all finite distances",
  "Package geo has no tests of its own; NaN needs antipodal points or a rounding just above one.",
  ["geo/bearing.go", "geo/destination.go", "geo/distance.go", "geo/geo.go", "geo/normalize.go"], [("clamped inverse functions", "geo/distance.go, geo/destination.go"), ("spherical formulas", "geo")], None, ["geo functions"])
# ---- out of reach of static analysis
p("X01", "Positions are accurate to within rounding",
  "The rounding error of distance, bearing and destination computations stays below a small bound everywhere on the globe.",
  ["inputs"], "all coordinate pairs", "Tests check a few mid-latitude pairs.",
  ["geo/bearing.go", "geo/destination.go", "geo/distance.go"], [("floating-point evaluation", "geo")], None, ["geo functions"])
p("X02", "A moving device stays on its route",
  "Every reported position of an online device lies on the polyline of its current track, within the segment reported as current, and the device eventually visits every segment of every route.",
  ["inputs", "histories"], "all routes and speeds", "Tests follow a few journeys.",
  ["navigator/navigator.go", "geo/destination.go"], [("interpolation along the segment", "navigator/navigator.go")], None, ["Location over a journey"])
p("X03", "Ticks follow the wall clock",
  "A running generator advances its devices at the configured interval on average, and the interval given to the devices equals the real time elapsed since the previous tick, slow callbacks and many devices notwithstanding.",
  ["schedules"], "all loads", "Timing is not measured by the tests.",
  ["generator.go"], [("ticker", "generator.go: run")], None, ["time between packets"])
p("X04", "Interpolated values stay within the configured range",
  "Speed, elevation and sensor values at every progress value between 0 and 1 lie between the configured minimum and maximum.",
  ["inputs"], "all progress values and control points", "Floating-point evaluation with binomial weights up to order 511 is sampled at a few points.",
  ["curve/curve.go"], [("Bernstein evaluation", "curve/curve.go: Point")], None, ["Point(t)"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P), "properties")
