#!/usr/bin/env python3
# Writes /verif/properties.jsonl (single source for titles/statements/anchors).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=None)))

prop("C01", "Every tick delivers every attached tracker exactly once",
 "On every generator tick, every tracker that stays attached for the whole tick appears in exactly one packet handed to the packet callback, for any number of trackers, packet size and worker count, and even while other trackers are attached or detached during that tick. "
 "The delivered record is that tracker's state after this tick's step, and a tracker that is detached before the tick starts is not delivered.",
 ["schedules", "configurations", "histories"],
 "all tracker counts around multiples of the packet size, all worker counts and packet sizes, all interleavings of the tick with attach/detach",
 "the tests run one small generator for a moment and only look at whether some packet arrived; neither the counts beyond one packet nor any interleaving with Attach/Detach is reached",
 ["generator.go"], [("tick loop fills the packet and flushes it in slices to workers", "generator.go:run/flush/doWorker")],
 ["OnPacket", "PacketFromBytes"])
prop("C02", "Close always ends Run, with nothing left behind",
 "After Close is called, from any goroutine or from inside a callback and at any moment of a tick, Run returns, every goroutine the generator started has ended, and no callback is invoked after Run has returned. "
 "No combination of packet, error and next-step callbacks and functions given to the generator's Each that call generator methods (or, from the callbacks, tracker methods), and of concurrent calls, deadlocks the generator or its callers.",
 ["schedules", "configurations"],
 "all interleavings (up to the preemption bound) of Close, ticks, workers and callbacks, for tracker counts below, at and above a packet",
 "a test observes the one moment at which it happens to call Close; a hang or leak needs Close to land between two particular channel operations",
 ["generator.go"], [("context cancellation observed by tick loop, workers and notifier", "generator.go:run/doWorker/doNext/flush")],
 ["Run", "Close", "OnPacket", "OnNext", "OnError"])
prop("C03", "Packets only ever contain genuine, whole tracker states",
 "Every packet passed to the packet callback decodes, and every record in it equals a state that one attached tracker really had at one instant: never blank, never mixed from two states, also while trackers are being edited concurrently or the generator is being closed. "
 "A packet that cannot be encoded is reported through the error callback (if set) and is never passed, whole or partial, to the packet callback; the other packets are unaffected.",
 ["schedules", "fault_sequences"],
 "all interleavings of packet encoding with tracker edits, detach, the next tick and Close; every position of an un-encodable tracker",
 "tests decode one packet at a quiet moment; torn or blank records need an edit or a Close to land between filling and encoding the packet",
 ["generator.go", "device.go"], [("packet buffer lock", "generator.go:dmu"), ("state hand-out", "device.go:State")],
 ["OnPacket", "OnError"])
prop("C04", "The generator's tracker collection behaves as an ordered set",
 "Under any history of attach, detach, lookup, has, count and each (also from several goroutines, each call taking effect atomically), the generator holds exactly the trackers attached and not yet detached, in attach order; Lookup, HasTracker, NumDevices and Each agree with it. "
 "A tracker reports Running exactly while it is attached, attaching a tracker that is already attached anywhere is refused and changes nothing, and detaching an unknown or empty id changes nothing.",
 ["histories", "schedules"],
 "all operation histories up to the depth bound over several trackers and two generators, and all interleavings of two to three concurrent calls",
 "tests call each operation once in a fixed order on one goroutine",
 ["generator.go", "device.go"], [("device list under generator lock", "generator.go:Attach/Detach/find/delete"), ("status flag", "device.go:mount/unmount")],
 ["NumDevices", "Each", "Lookup", "HasTracker", "Status"])
prop("C05", "Concurrent calls on one tracker behave as if made one by one",
 "Any concurrent combination of a tracker's methods is free of data races, panics and deadlocks, and its results and the tracker's final state equal those of some sequential order of the same calls, except that a step that finds the tracker busy may return false and leave its time to the next step. "
 "State, snapshots, binary images and lists already returned to a caller are never altered by later calls.",
 ["schedules"],
 "all interleavings up to the preemption bound of every pair of tracker methods, and of selected triples",
 "tests are single-threaded on the tracker; races and torn results exist only in interleavings",
 ["device.go"], [("read-write lock in every accessor", "device.go:mu"), ("TryLock in Next", "device.go:Next")],
 ["every exported Device method"])
prop("C06", "Simulated time is never lost or invented",
 "A tracker step that is refused because the tracker is busy hands its full time to the next successful step, so that the tracker's duration always equals the total of all step times requested since it started (or since it last completed its whole path). "
 "The generator steps every attached tracker that has routes, once per tick, by the time elapsed since the previous tick (at least one second), so however slow the callbacks or late the ticks, the durations add up to the elapsed time.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of steps with other tracker calls, all tick lengths (fractional too), all patterns of slow callbacks over several ticks",
 "the one test skips a single one-second step; fractional or longer steps, racing steps and slow ticks are not reached",
 ["device.go", "generator.go"], [("skipped-step accumulator", "device.go:incTick/resetTick/Next"), ("elapsed-time tick", "generator.go:run")],
 ["Duration", "State().Tick"])
prop("C07", "A tracker is always at a valid place on its routes",
 "After any history of route edits, moves, steps, offline switches and resets, no call panics, the current route, track and segment indices designate existing elements (or nothing, when there are no routes), and the current route, track and segment returned are those elements. "
 "Total, route, track and segment distances always equal those of the routes actually present, travelled distances are never negative, and after a successful step or move the location lies on the current segment; an edit made directly on a route object takes effect with the next step of a tracker that is online.",
 ["histories"],
 "all operation histories up to the depth bound on small route sets, including several routes, tracks of one segment, zero-length segments and removal of what the tracker is on",
 "tests check a handful of fixed sequences; stale indices and distances need an edit after a movement",
 ["navigator/navigator.go", "navigator/route.go", "device.go"], [("index reset on edits", "navigator.go:Reset/RemoveRoute/RemoveTrack"), ("distance bookkeeping", "navigator.go:calcRouteDistance")],
 ["RouteIndex", "CurrentSegment", "Distance", "Location"])
prop("C08", "Stepping walks the routes forward, in order, by speed times time",
 "Each successful step adds exactly speed times step time to the travelled distances and moves the tracker along its current segment, showing the point at the travelled distance (on a step that starts at the very beginning of a track's first segment: one metre in, or the end of a shorter segment); a step longer than the rest of the segment is walked from the start of the next segment of the track that can hold it. "
 "Segments, tracks and routes are visited in order without skipping any track, the travelled track and route distances restart at each track and route, each end of track starts an offline period (unless disabled), and after the last track the walk starts over from the first route with duration zero, an end the navigator reports once (IsFinish) unless it was moved, reset or its routes were edited since.",
 ["inputs", "histories"],
 "all sequences of step lengths from a small alphabet over all small route shapes (routes x tracks x segments, including empty segments), until the walk has wrapped around",
 "the tests step one or two fixed routes and check that something moved",
 ["navigator/navigator.go", "device.go"], [("segment/track/route advance", "navigator.go:NextLocation/nextSegment/nextTrack/nextRoute")],
 ["Next", "Location", "CurrentDistance", "CurrentTrackDistance", "CurrentRouteDistance", "Duration"])
prop("C09", "Repositioning lands exactly where asked, or changes nothing",
 "Moving to a route, track or segment (by index or id, or to the next/previous route) succeeds exactly when the target exists and differs from the current place; then the tracker stands at the start of that segment, online, and the next steps continue from there. "
 "DestinationTo(d) succeeds exactly when the smaller of d and the total distance is at least one metre, and then puts the tracker at distance d along the concatenation of all its tracks (at the very end when d exceeds the total), with indices and route/track/segment distances consistent with d; a call that returns false leaves the tracker untouched.",
 ["inputs", "histories"],
 "all targets (in and out of range) from every reachable place of small multi-route, multi-track sets, and distances on a fine grid including every boundary",
 "tests jump within one route and move to a few valid targets",
 ["navigator/navigator.go", "device.go"], [("jump by distance", "navigator.go:jump"), ("move by index", "navigator.go:MoveToSegment")],
 ["DestinationTo", "MoveTo*", "ToNextRoute", "ToPrevRoute"])
prop("C10", "Offline periods are respected",
 "Going offline (explicitly, at the end of a track or on a low battery) lasts a number of steps drawn from [min, max) of the configured offline range; while offline every step returns false and the tracker neither moves nor changes its travelled distances, the published remaining duration counts down one per step, and afterwards movement resumes. "
 "A tracker configured to skip offline mode is never offline; a tracker whose battery has reached its minimum goes offline on that step and its battery restarts charged.",
 ["inputs", "histories"],
 "all offline ranges from a small grid, all random draws at the extremes and middle, all histories of steps, ToOffline, moves and save/restore up to the depth bound",
 "tests use one range with whatever the random source gives",
 ["navigator/navigator.go", "types/random.go", "types/battery.go", "device.go"], [("offline countdown", "navigator.go:nextOffline/ToOffline"), ("low battery", "device.go:Next")],
 ["IsOffline", "State().OfflineDuration", "Next"])
prop("C11", "Published state agrees with the tracker",
 "After any history of edits and steps followed by an update or successful step, the published state equals what the tracker's accessors report: location, bearing, elevation, all distances, indices, current route and track ids, offline flag and duration, battery, speed, the time the total distance takes at that speed (while moving), and the DMS/UTM forms of the location. "
 "It lists exactly the current routes and tracks (ids, colours, distances, segment counts, properties) and sensors (id, name, values) in order; adding or removing routes, tracks or sensors through the tracker shows immediately, and tracks, names and colours changed directly on a route or track show after the next successful step.",
 ["histories"],
 "all operation histories up to the depth bound over edits through the tracker and directly on its routes, tracks and sensors",
 "tests compare a few fields after fixed sequences; stale listings need an edit between two refreshes",
 ["device.go", "navigator/navigator.go", "navigator/location.go"], [("refresh on version change", "device.go:isNotValidNS/updateRoutes/updateState/updateSensors"), ("state fill", "navigator.go:Update")],
 ["State", "Version"])
prop("C12", "Generated values stay inside their configured ranges",
 "Speed, elevation and every sensor value stay within their configured (finite) minimum and maximum at every step of zero or more seconds, whatever the random draws, amplitude and mode, also after shuffles and restore; start/end modes begin/end the curve at the minimum, and a speed with equal minimum and maximum is constant. "
 "The battery starts full, decreases linearly with simulated time over its charge time, stopping at its minimum, and never leaves the range between its minimum and 100 percent.",
 ["inputs", "configurations"],
 "all amplitudes up to the bound, all extreme draw patterns of the random source, a grid of ranges and all points of a grid of curve positions",
 "tests sample a few positions of one random curve",
 ["curve/curve.go", "types/speed.go", "types/sensor.go", "types/battery.go", "device.go"], [("Bezier/Bernstein evaluation of control points within [min,max]", "curve.go:Point"), ("step ratio clamped to 1", "device.go:nextT")],
 ["State().Speed", "SensorByID", "Battery"])
prop("C13", "A saved and restored tracker behaves identically",
 "Encoding a tracker and decoding it again, at any point of any history, yields a tracker with the same state that responds to every further history of calls exactly as the original would (apart from fresh random draws, being stopped, not running, time still owed by refused steps, and the finish flag). "
 "Encoding is repeatable and does not disturb the tracker, and restoring onto an existing tracker replaces everything it held before.",
 ["histories"],
 "all histories up to the depth bound before saving and all continuations up to a bound after it, over all configurations of the fixture grid",
 "tests compare some fields right after one save/restore and never continue from there",
 ["device.go", "io.go", "navigator/navigator.go", "types/*.go", "curve/curve.go"], [("snapshot/restore of every component", "device.go:Snapshot/FromSnapshot")],
 ["EncodeTracker", "DecodeTracker", "MarshalBinary", "UnmarshalBinary", "Snapshot", "FromSnapshot"])
prop("C14", "Routes and sensors survive the binary round trip",
 "Decoding encoded routes or sensors (with valid UTF-8 texts) yields the same sequence: ids, names, colours, JSON-representable properties, closedness, versions, distances, segments with their end points, bearings and order, and sensors with identity, range, current values and the same future values at every position. "
 "Encoding the decoded result gives the same bytes, and a route list decoded from saved data steps exactly like the original. "
 "A route, track, segment or sensor restored from a snapshot, onto a new or an existing object, is the one the snapshot was taken of and shares nothing with it; a route snapshot that cannot be restored is refused and changes nothing.",
 ["inputs", "histories"],
 "all small route/track/segment shapes crossed with names, colours, property values and editing histories; all sensor modes and amplitudes of the grid",
 "tests round-trip one or two fixed routes and compare a few fields",
 ["io.go", "navigator/route.go", "navigator/route_track.go", "navigator/route_track_segment.go", "types/sensor.go", "curve/curve.go"], [("snapshot conversions", "route.go:Snapshot/RouteFromSnapshot")],
 ["EncodeRoutes", "DecodeRoutes", "EncodeSensors", "DecodeSensors"])
prop("C15", "GeoJSON import and export preserve routes",
 "Exporting routes to GeoJSON and importing them again preserves, in order, every route that has tracks and each of its tracks: ids, names, colours, JSON-representable properties with keys other than the reserved metadata names, coordinates, closedness and distances. "
 "Foreign GeoJSON features (LineString, MultiLineString, Polygon, MultiPolygon, MultiPoint and geometry collections of them) import as one route each, with one track per line or outer ring in order, the exact coordinates, and the feature's properties; anything else, go-gpsgen metadata that does not fit its geometry included, is reported as an error.",
 ["inputs"],
 "all small combinations of geometry types, nesting, track counts, names, properties and coordinates from boundary alphabets",
 "tests import a few sample files and round-trip single shapes",
 ["geojson/encoding.go", "geojson/feature_collection.go", "io.go"], [("per-track info list restored with the geometry", "geojson/encoding.go:restoreRoute/parseGeometry")],
 ["EncodeGeoJSONRoutes", "DecodeGeoJSONRoutes", "geojson.Encode", "geojson.Decode"])
prop("C16", "GPX import and export preserve routes",
 "Exporting routes to GPX and importing them again preserves, in order, every route that has tracks and each of its tracks: ids, names, colours, string-valued properties that do not read as numbers or booleans and whose keys can be XML attribute names other than the reserved metadata names, coordinates (to the ten decimals GPX stores), closedness and distances. "
 "Foreign GPX imports tracks as routes with one track per segment (or, when there are none, each route, or, when there are none of these either, the list of waypoints as one route with one track), with the exact coordinates in order; structurally inconsistent go-gpsgen metadata is reported as an error.",
 ["inputs"],
 "all small combinations of routes, tracks, names, properties and coordinates from boundary alphabets, and all small foreign documents",
 "tests import a few sample files and round-trip one fixed route",
 ["gpx/encoding.go", "io.go"], [("extension nodes paired with tracks and segments", "gpx/encoding.go:Encode/Decode/validateRoutes")],
 ["EncodeGPXRoutes", "DecodeGPXRoutes", "gpx.Encode", "gpx.Decode"])
prop("C17", "Decoders never crash and fail cleanly",
 "Whatever bytes are given to the tracker, route, sensor, packet, GeoJSON and GPX decoders, they return either a result or an error, never panic and never hang; whatever they return without an error can be used (stepped, listed, moved, re-encoded) without panicking. "
 "A failed restore onto an existing tracker leaves that tracker as it was.",
 ["fault_sequences", "inputs"],
 "all truncations, all single-byte substitutions from an alphabet, all single-field omissions and all extreme single-field values of valid encodings; all small malformed GeoJSON/GPX documents",
 "tests feed an empty input and one garbage string",
 ["io.go", "device.go", "encoding.go", "navigator/navigator.go", "navigator/route.go", "geojson/encoding.go", "gpx/encoding.go"], [("error returns of the decoders", "io.go, device.go:UnmarshalBinary")],
 ["Decode*", "UnmarshalBinary", "PacketFromBytes"])
prop("C18", "Geographic computations are mutually consistent",
 "For all points and distances, travelling a distance on a bearing ends at that distance from the start and in that initial direction, distance is symmetric, zero only between equal places and obeys the triangle inequality, bearings lie in [0,360), and destinations are valid coordinates. "
 "The published degrees/minutes/seconds reassemble to the location (to the published precision) with minutes and seconds below 60 and the right hemisphere letters, and the published UTM zone, hemisphere and coordinates are those of the location (between 80 degrees south and 84 degrees north).",
 ["inputs"],
 "all pairs/triples of points of a world grid with poles, equator, antimeridian and near-boundary values, all bearings and distances of a grid",
 "tests check a handful of known values",
 ["geo/*.go", "navigator/location.go"], [("haversine, bearing and destination formulas", "geo/*.go"), ("DMS/UTM conversion", "navigator/location.go")],
 ["geo.Distance", "geo.Bearing", "geo.Destination", "State().Location"])
prop("C19", "Routes and tracks stay consistent under editing",
 "Under any editing history, a route's distance is the sum of its tracks' and a track's the sum of its segments', segments join up end to start in order over exactly the given points, closedness means at least three points of which the first and last coincide, and lookup, indexing, iteration and removal agree on the same ordered tracks. "
 "Names and colours change only to valid values, failed edits change nothing, every successful edit is visible in the version, and lists of routes or tracks handed out and properties merged never affect others.",
 ["histories", "inputs"],
 "all editing histories up to the depth bound over several tracks, and all small point sequences",
 "tests perform single edits",
 ["navigator/route.go", "navigator/route_track.go", "navigator/route_track_segment.go", "navigator/types.go", "properties/properties.go"], [("distance recomputation and version bump on each edit", "route.go:updateState/nextVersion")],
 ["Route", "Track", "Segment", "Properties"])
prop("C20", "Random generation stays inside its bounds",
 "Whatever the random source yields, a random point for a country lies in that country's bounding box and a random world point has valid coordinates; every listed country has a name and (where it has one) a well-formed bounding box, matched case-insensitively, and unknown codes are errors. "
 "A random route has the requested number of named, closed, steppable tracks near the requested centre (away from the poles), a random polygon has the requested number of points (sixteen when none is given) and is closed, and random strings have the requested length over the documented alphabet.",
 ["inputs", "configurations"],
 "all countries x extreme/middle draws, all track counts, levels, point counts and zooms of a grid x draw patterns",
 "tests draw a few samples from the real random source",
 ["random/*.go", "route.go"], [("bounding box interpolation", "random/latlon.go"), ("polygon and route construction", "random/polygon.go, route.go:RandomRoute")],
 ["random.*", "RandomRoute"])
prop("C21", "Construction validates its options and honours them",
 "Creating a tracker, sensor, speed, battery, navigator or generator succeeds exactly for (finite) option values inside the documented limits, reports an error otherwise (never a panic or a half-made object), and documented defaults replace unset values. "
 "A created object reports exactly the values it was given (id, model, user, description, colour, ranges), fresh ids are distinct, and the ready-made tracker presets match their published options.",
 ["inputs", "configurations"],
 "the full grid of boundary values for every option, singly and in pairs",
 "tests try one value below and one above each limit",
 ["device_options.go", "device.go", "navigator/options.go", "types/*.go", "generator.go"], [("validation in constructors", "types/*.go, navigator/options.go")],
 ["NewDevice", "NewSensor", "New*"])
prop("C22", "A tracker's routes, sensors and labels behave as plain collections",
 "Under any history of adding, removing, resetting and reading, a tracker's routes and sensors are ordered sets keyed by id: duplicates and nils are ignored, removal reports whether something was removed, and counts, indexed access, lookup by id, iteration (with early stop) and lists all agree; the returned lists are independent copies. "
 "Model, colour, user id and description always hold the last accepted value, rejected values (models too short or too long, invalid colours) change nothing, and none of these edits disturb the others.",
 ["histories"],
 "all operation histories up to the depth bound over three routes and three sensors, including duplicates, nils and unknown ids",
 "tests call each operation in one fixed order",
 ["device.go", "navigator/navigator.go"], [("id-keyed slices", "device.go:AddSensor/RemoveSensor, navigator.go:AddRoute/RemoveRoute")],
 ["AddRoute", "RemoveRoute", "Routes", "AddSensor", "RemoveSensor", "Sensors", "SetModel", "SetColor"])
prop("C23", "Tick notifications are faithful",
 "After every completed tick the next-step callback is invoked unless an invocation for an earlier tick is still pending or running, in which case the ticks share one later invocation: never more invocations than ticks, never an invocation before its tick's packets have been delivered, and never two at once. "
 "A slow or missing next-step, packet or error callback never makes the generator lose or duplicate a tick's other notifications, and callbacks may be set or replaced at any time.",
 ["schedules", "configurations"],
 "all interleavings up to the preemption bound of ticks, notifier, workers and callback replacement, for fast and slow callbacks",
 "tests wait for one notification",
 ["generator.go"], [("one-slot notification channel", "generator.go:notifyNextTick/doNext")],
 ["OnNext", "OnPacket", "OnError"])
prop("C24", "Trackers, generators and calls do not interfere with each other",
 "Whatever is done to one tracker (steps, moves, edits, encoding, restoring, in any order, also concurrently) changes neither the state, nor the results, nor the future of another, nor races with it, even when both were made from one options value, restored from one image or snapshot or one from the other, given routes decoded from one document, or given the same routes (edits of a shared route itself concern every holder); nor is the image or snapshot altered. "
 "Two generators running at once each deliver just their own trackers and stop on their own. Concurrent calls of package-level functions (constructors, encoders, decoders, random generation) and concurrent readings of one route are free of data races and give what each gives alone.",
 ["histories", "schedules"],
 "all interleavings of operation histories on two trackers up to a depth, and all schedules of two such calls or of two generators up to the preemption bound",
 "tests use one tracker and one generator at a time; sharing shows only when the other one is looked at",
 ["device.go", "generator.go", "io.go", "route.go", "navigator/route.go", "navigator/route_track.go", "curve/curve.go", "random/random.go", "device_options.go"],
 [("state that could be shared", "device.go:FromSnapshot, device_options.go, random/random.go:Random, navigator/route.go:Props")],
 ["NewDevice", "FromSnapshot", "UnmarshalBinary", "AddRoute", "Next", "RandomRoute", "EncodeRoutes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
