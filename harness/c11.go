package harness

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
)

func mkSensor(i int) *gpsgen.Sensor {
	mode := []types.SensorMode{types.WithSensorRandomMode, types.WithSensorStartMode, types.WithSensorEndMode}[i%3]
	s, err := types.RestoreSensor(fmt.Sprintf("00000000-0000-4000-9000-%012d", i+1), fmt.Sprintf("sensor %d", i), float64(i), float64(10*i+10), 4+i, mode)
	must(err)
	return s
}

// withSensors gives the world's tracker a pool of three sensors, the first n attached.
func withSensors(mk func() *World, n int) func() *World {
	return func() *World {
		w := mk()
		for i := 0; i < 3; i++ {
			w.Sens = append(w.Sens, mkSensor(i))
		}
		w.D.AddSensor(w.Sens[:n]...)
		return w
	}
}

func opAddSensor(i int) SeqOp {
	return SeqOp{Name: fmt.Sprintf("AddSensor(#%d)", i), Kind: "sensors", Run: func(w *World) interface{} { w.D.AddSensor(w.Sens[i]); return nil }}
}
func opRemoveSensor(i int) SeqOp {
	return SeqOp{Name: fmt.Sprintf("RemoveSensor(#%d)", i), Kind: "sensors", Run: func(w *World) interface{} { return w.D.RemoveSensor(w.Sens[i].ID()) }}
}
func opResetSensors() SeqOp {
	return SeqOp{Name: "ResetSensors", Kind: "sensors", Run: func(w *World) interface{} { w.D.ResetSensors(); return nil }}
}
func opDirectColor(i, k int, c string) SeqOp {
	return SeqOp{Name: fmt.Sprintf("route#%d.track#%d.ChangeColor(%s)", i, k, c), Kind: "colour", A: i, B: k, Run: func(w *World) interface{} {
		t := w.Pool[i].TrackAt(k)
		if t == nil {
			return nil
		}
		return t.ChangeColor(c)
	}}
}
func opDirectRouteColor(i int, r, g, b float64) SeqOp {
	return SeqOp{Name: fmt.Sprintf("route#%d.ChangeColor(%v,%v,%v)", i, r, g, b), Kind: "colour", A: i, Run: func(w *World) interface{} {
		return w.Pool[i].ChangeColor(rgb(r, g, b))
	}}
}
func opDirectName(i int, n string) SeqOp {
	return SeqOp{Name: fmt.Sprintf("route#%d.ChangeName(%s)", i, n), Kind: "name", A: i, Run: func(w *World) interface{} { return w.Pool[i].ChangeName(n) }}
}
func opDirectProp(i, k int, key string, v interface{}) SeqOp {
	return SeqOp{Name: fmt.Sprintf("route#%d.track#%d.Props[%s]=%v", i, k, key, v), Kind: "props", A: i, B: k, Run: func(w *World) interface{} {
		if k < 0 {
			w.Pool[i].Props().Set(key, v)
		} else if t := w.Pool[i].TrackAt(k); t != nil {
			t.Props().Set(key, v)
		}
		return nil
	}}
}
func opLabels(m, u, de string) SeqOp {
	return SeqOp{Name: "Set labels " + m, Kind: "labels", Run: func(w *World) interface{} {
		must(w.D.SetModel(m))
		must(w.D.SetUserID(u))
		w.D.SetDescription(de)
		must(w.D.SetColor(rgb(0.2, 0.4, 0.6)))
		return nil
	}}
}

// ---- what is published ----

func propsOf(raw []byte) map[string]interface{} {
	if len(raw) == 0 {
		return nil
	}
	var m map[string]interface{}
	if json.Unmarshal(raw, &m) != nil {
		return map[string]interface{}{"!": string(raw)}
	}
	return m
}

func jsonProps(p map[string]interface{}) map[string]interface{} {
	if len(p) == 0 {
		return nil
	}
	b, _ := json.Marshal(p)
	return propsOf(b)
}

// routesDiff compares the published routes with those of the tracker.
func routesDiff(d *gpsgen.Device, st *pb.Device, props bool) string {
	rs := st.Routes.GetRoutes()
	if len(rs) != d.NumRoutes() {
		return fmt.Sprintf("%d routes published, the tracker has %d", len(rs), d.NumRoutes())
	}
	for i, p := range rs {
		r := d.RouteAt(i)
		if p.RouteId != r.ID() || p.Color != r.Color() || !eq(p.Distance, r.Distance()) {
			return fmt.Sprintf("route %d published as (%s %s %v), tracker has (%s %s %v)", i, p.RouteId, p.Color, p.Distance, r.ID(), r.Color(), r.Distance())
		}
		if props && (!reflect.DeepEqual(propsOf(p.Props), jsonProps(r.Props())) || int(p.PropsCount) != len(r.Props())) {
			return fmt.Sprintf("route %d published with properties %s (%d), tracker has %v", i, p.Props, p.PropsCount, r.Props())
		}
		if len(p.Tracks) != r.NumTracks() {
			return fmt.Sprintf("route %d published with %d tracks, tracker has %d", i, len(p.Tracks), r.NumTracks())
		}
		for k, q := range p.Tracks {
			t := r.TrackAt(k)
			if q.TrackId != t.ID() || q.Color != t.Color() || !eq(q.Distance, t.Distance()) || int(q.NumSegments) != t.NumSegments() {
				return fmt.Sprintf("track %d/%d published as (%s %s %v %d), tracker has (%s %s %v %d)", i, k, q.TrackId, q.Color, q.Distance, q.NumSegments, t.ID(), t.Color(), t.Distance(), t.NumSegments())
			}
			if props && (!reflect.DeepEqual(propsOf(q.Props), jsonProps(t.Props())) || int(q.PropsCount) != len(t.Props())) {
				return fmt.Sprintf("track %d/%d published with properties %s (%d), tracker has %v", i, k, q.Props, q.PropsCount, t.Props())
			}
		}
	}
	return ""
}

func sensorsDiff(d *gpsgen.Device, st *pb.Device, values bool) string {
	ss := st.Sensors
	if len(ss) != d.NumSensors() {
		return fmt.Sprintf("%d sensors published, the tracker has %d", len(ss), d.NumSensors())
	}
	for i, p := range ss {
		s := d.SensorAt(i)
		if p.Id != s.ID() || p.Name != s.Name() {
			return fmt.Sprintf("sensor %d published as (%s %s), tracker has (%s %s)", i, p.Id, p.Name, s.ID(), s.Name())
		}
		if values && (p.ValX != s.ValueX() || p.ValY != s.ValueY()) {
			return fmt.Sprintf("sensor %d published with values %v/%v, it has %v/%v", i, p.ValX, p.ValY, s.ValueX(), s.ValueY())
		}
	}
	return ""
}

// stateDiff compares the published state with the accessors.
func stateDiff(d *gpsgen.Device, o *obs) string {
	st, sn := o.St, o.Snap
	if st.Location == nil || st.Distance == nil || st.Navigator == nil || st.Battery == nil || st.Units == nil || st.Routes == nil {
		return "a part of the published state is missing"
	}
	for _, x := range []struct {
		n    string
		a, b float64
	}{
		{"latitude", st.Location.Lat, o.Loc.Lat}, {"longitude", st.Location.Lon, o.Loc.Lon}, {"bearing", st.Location.Bearing, o.Brg},
		{"elevation", st.Location.Elevation, sn.Navigator.Elevation.ValY},
		{"distance", st.Distance.Distance, o.Dist}, {"current distance", st.Distance.CurrentDistance, o.Cur},
		{"route distance", st.Distance.RouteDistance, o.RouteDist}, {"current route distance", st.Distance.CurrentRouteDistance, o.CurRoute},
		{"track distance", st.Distance.TrackDistance, o.TrackDist}, {"current track distance", st.Distance.CurrentTrackDistance, o.CurTrack},
		{"segment distance", st.Distance.SegmentDistance, o.SegDist}, {"current segment distance", st.Distance.CurrentSegmentDistance, o.CurSeg},
		{"route index", float64(st.Navigator.CurrentRouteIndex), float64(o.R)}, {"track index", float64(st.Navigator.CurrentTrackIndex), float64(o.T)},
		{"segment index", float64(st.Navigator.CurrentSegmentIndex), float64(o.S)},
		{"offline duration", float64(st.OfflineDuration), float64(o.K)}, {"duration", st.Duration, o.Dur},
		{"battery charge time", float64(st.Battery.ChargeTime), math.Trunc(time.Duration(sn.Battery.ChargeTime).Seconds())},
	} {
		if x.a != x.b && !(math.Abs(x.a-x.b) <= 1e-9*math.Max(1, math.Abs(x.b))) {
			return fmt.Sprintf("published %s is %v, the tracker reports %v", x.n, x.a, x.b)
		}
	}
	want := ""
	if o.Route != nil {
		want = o.Route.ID()
	}
	if st.Navigator.CurrentRouteId != want {
		return fmt.Sprintf("published current route id %q, the tracker reports %q", st.Navigator.CurrentRouteId, want)
	}
	want = ""
	if o.Track != nil {
		want = o.Track.ID()
	}
	if st.Navigator.CurrentTrackId != want {
		return fmt.Sprintf("published current track id %q, the tracker reports %q", st.Navigator.CurrentTrackId, want)
	}
	if st.IsOffline != o.Off {
		return fmt.Sprintf("published offline flag %v, the tracker reports %v", st.IsOffline, o.Off)
	}
	speed := sn.Speed.Val
	if sn.Speed.Min == sn.Speed.Max {
		speed = sn.Speed.Min
	}
	if st.Speed != speed {
		return fmt.Sprintf("published speed %v, the tracker has %v", st.Speed, speed)
	}
	if st.Speed > 0 {
		if want := st.Distance.Distance / st.Speed; !(math.Abs(st.TimeEstimate-want) <= 1e-9*math.Abs(want)) {
			return fmt.Sprintf("published time estimate %v, the distance %v takes %v at speed %v", st.TimeEstimate, st.Distance.Distance, want, st.Speed)
		}
	}
	charge := 100.0
	if sn.Battery.Val != 0 {
		charge = math.Max(sn.Battery.Min, 100-sn.Battery.Val/time.Duration(sn.Battery.ChargeTime).Seconds()*100)
	}
	if !eq(st.Battery.Charge, charge) {
		return fmt.Sprintf("published battery charge %v, expected %v", st.Battery.Charge, charge)
	}
	if st.Id != d.ID() || st.Model != d.Model() || st.UserId != d.UserID() || st.Description != d.Descr() || st.Color != d.Color() {
		return fmt.Sprintf("published labels %q %q %q %q %q differ from %q %q %q %q %q", st.Id, st.Model, st.UserId, st.Description, st.Color, d.ID(), d.Model(), d.UserID(), d.Descr(), d.Color())
	}
	if m := dmsDiff(o.Loc, st.Location); m != "" {
		return m
	}
	return utmDiff(o.Loc, st.Location)
}

// dmsDiff checks the degrees/minutes/seconds form of a location.
func dmsDiff(p geo.LatLonPoint, l *pb.Device_Location) string {
	one := func(n string, v float64, d *pb.Device_Location_DMS, pos, neg string, max int64) string {
		if d == nil {
			return n + " has no DMS form"
		}
		x := float64(d.Degrees) + float64(d.Minutes)/60 + d.Seconds/3600
		if math.Abs(x-math.Abs(v)) > 1e-9 {
			return fmt.Sprintf("%s %v published as %d°%d'%v\" (off by %v°)", n, v, d.Degrees, d.Minutes, d.Seconds, x-math.Abs(v))
		}
		if d.Degrees < 0 || d.Degrees > max || d.Minutes < 0 || d.Minutes > 59 || d.Seconds < -1e-6 || d.Seconds > 60+1e-6 {
			return fmt.Sprintf("%s %v published as %d°%d'%v\"", n, v, d.Degrees, d.Minutes, d.Seconds)
		}
		if (v > 0 && d.Direction != pos) || (v < 0 && d.Direction != neg) || (d.Direction != pos && d.Direction != neg) {
			return fmt.Sprintf("%s %v published with direction %q", n, v, d.Direction)
		}
		return ""
	}
	if m := one("latitude", p.Lat, l.LatDms, "N", "S", 90); m != "" {
		return m
	}
	return one("longitude", p.Lon, l.LonDms, "E", "W", 180)
}

// tm projects onto a transverse Mercator plane (Krüger's series to the sixth
// order on WGS 84), written independently of the library the code uses.
func tm(lat, lon, meridian float64) (e, n float64) {
	const a, f = 6378137.0, 1 / 298.257223563
	nn := f / (2 - f)
	n2, n3, n4 := nn*nn, nn*nn*nn, nn*nn*nn*nn
	A := a / (1 + nn) * (1 + n2/4 + n4/64)
	al := []float64{nn/2 - 2*n2/3 + 5*n3/16 + 41*n4/180, 13*n2/48 - 3*n3/5 + 557*n4/1440, 61*n3/240 - 103*n4/140, 49561 * n4 / 161280}
	phi, lam := lat*math.Pi/180, (lon-meridian)*math.Pi/180
	k := 2 * math.Sqrt(nn) / (1 + nn)
	t := math.Sinh(math.Atanh(math.Sin(phi)) - k*math.Atanh(k*math.Sin(phi)))
	xi := math.Atan2(t, math.Cos(lam))
	eta := math.Atanh(math.Sin(lam) / math.Sqrt(1+t*t))
	E, N := eta, xi
	for i, c := range al {
		j := 2 * float64(i+1)
		E += c * math.Cos(j*xi) * math.Sinh(j*eta)
		N += c * math.Sin(j*xi) * math.Cosh(j*eta)
	}
	e = 500000 + 0.9996*A*E
	n = 0.9996 * A * N
	if lat < 0 {
		n += 10000000
	}
	return
}

// utmZone numbers the zone of a place, with the exceptions of Norway and Svalbard.
func utmZone(lat, lon float64) int {
	if lon >= 180 {
		lon -= 360
	}
	if lon < -180 {
		lon += 360
	}
	if lat >= 56 && lat < 64 && lon >= 3 && lon < 12 {
		return 32
	}
	if lat >= 72 && lat <= 84 && lon >= 0 && lon < 42 {
		switch {
		case lon < 9:
			return 31
		case lon < 21:
			return 33
		case lon < 33:
			return 35
		default:
			return 37
		}
	}
	return int(math.Floor((lon+180)/6)) + 1
}

// utmDiff checks the UTM form of a location, for latitudes UTM is defined at.
func utmDiff(p geo.LatLonPoint, l *pb.Device_Location) string {
	u := l.Utm
	if u == nil {
		return "location has no UTM form"
	}
	if p.Lat < -80 || p.Lat > 84 {
		return ""
	}
	lon := p.Lon
	ok := false
	for _, da := range []float64{0, -1e-9, 1e-9} { // exactly on an edge, either side is right
		for _, do := range []float64{0, -1e-9, 1e-9} {
			ok = ok || int(u.LongZone) == utmZone(p.Lat+da, p.Lon+do)
		}
	}
	if !ok {
		return fmt.Sprintf("%v published in UTM zone %d, it is in zone %d", p, u.LongZone, utmZone(p.Lat, p.Lon))
	}
	zone := int(u.LongZone)
	const letters = "CDEFGHJKLMNPQRSTUVWX"
	i := int(math.Floor((p.Lat + 80) / 8))
	if i > 19 {
		i = 19
	}
	if u.LatZone != letters[i:i+1] {
		return fmt.Sprintf("%v published in UTM band %q, it is in band %q", p, u.LatZone, letters[i:i+1])
	}
	hem, srid := "N", int64(32600+zone)
	if p.Lat < 0 {
		hem, srid = "S", int64(32700+zone)
	}
	if u.Hemisphere != hem || u.Srid != srid {
		return fmt.Sprintf("%v published in hemisphere %s with SRID %d, expected %s %d", p, u.Hemisphere, u.Srid, hem, srid)
	}
	meridian := float64(zone*6 - 183)
	if u.CentralMeridian != meridian {
		return fmt.Sprintf("%v published with central meridian %v, expected %v", p, u.CentralMeridian, meridian)
	}
	lx := lon
	if lx-meridian > 180 {
		lx -= 360
	}
	e, n := tm(p.Lat, lx, meridian)
	if p.Lat == 0 {
		n = math.Mod(n, 10000000)
	}
	dn := math.Abs(u.Northing - n)
	if p.Lat == 0 {
		dn = math.Min(dn, math.Abs(dn-10000000))
	}
	if math.Abs(u.Easting-e) > 0.05 || dn > 0.05 {
		return fmt.Sprintf("%v published at UTM %v/%v, expected %v/%v", p, u.Easting, u.Northing, e, n)
	}
	return ""
}

func judgePublished(c *Tx) {
	o, d := c.Post, c.W.D
	res, _ := c.Res.(bool)
	refreshed := c.Op.Kind == "update" || c.Op.Kind == "restore" || (c.Op.Kind == "step" && res)
	if refreshed {
		if m := stateDiff(d, o); m != "" {
			c.Fail("state", "%s", m)
		}
		if m := routesDiff(d, o.St, c.Op.Kind != "step"); m != "" {
			c.Fail("routes", "%s", m)
		}
		if m := sensorsDiff(d, o.St, true); m != "" {
			c.Fail("sensors", "%s", m)
		}
		return
	}
	switch c.Op.Kind {
	case "addroute", "removeroute", "removetrack", "resetroutes":
		changed := res
		if c.Op.Kind == "addroute" {
			changed = c.Pre.N != o.N
		}
		if changed {
			if m := routesDiff(d, o.St, true); m != "" {
				c.Fail("routes", "%s", m)
			}
		}
	case "sensors":
		if m := sensorsDiff(d, o.St, false); m != "" {
			c.Fail("sensors", "%s", m)
		}
	case "labels":
		st := o.St
		if st.Model != d.Model() || st.UserId != d.UserID() || st.Description != d.Descr() || st.Color != d.Color() {
			c.Fail("labels", "published labels differ from the tracker's")
		}
	case "step":
		if int(o.St.OfflineDuration) != o.K || o.St.IsOffline != o.Off {
			if c.Pre.N > 0 {
				c.Fail("offline", "published offline=%v/%d after a step, the tracker reports %v/%d", o.St.IsOffline, o.St.OfflineDuration, o.Off, o.K)
			}
		}
	}
}

func init() {
	register(&Check{ID: "C11", Level: "model_checking",
		Rule:        "a state is a distinct (snapshot, published state, routes of the pool); every operation is executed from every state up to the depth bound and the published state compared with the accessors",
		Assumptions: []string{"random draws are fixed per exploration to one of the enumerated constants", "UTM compared to 5 cm with an independent series; band and zone by definition"},
		Jobs: func(tier string) []Job {
			var jobs []Job
			type v struct {
				fn       string
				attached bool
				sens     int
				depth    int
			}
			for _, x := range []v{{"two", true, 2, pick(tier, 4, 5)}, {"three", true, 0, pick(tier, 3, 4)}, {"one", false, 0, pick(tier, 4, 6)}, {"trackless", true, 1, pick(tier, 4, 5)}, {"antimeridian", true, 1, pick(tier, 3, 4)}, {"squares", true, 3, pick(tier, 3, 4)}} {
				f := fixtureByName(x.fn)
				for _, draw := range []float64{0, 0.7} {
					last := len(f.routes) - 1
					ops := []SeqOp{opStep(1), opStep(4), opStep(40), opOffline(), opUpdate(), opResetRoutes(), opResetNav(),
						opAddRoute(0), opRemoveRoute(0), opRemoveTrack(0, 0), opMoveRoute(last), opDestFrac(0.6, 0),
						opAddSensor(0), opAddSensor(2), opRemoveSensor(0), opResetSensors(), opLabels("model-q", "user-q", "descr-q"),
						opDirectAdd(0, 9, 3), opDirectRemove(0, 0), opDirectRemove(last, 0), opDirectColor(0, 0, "#ff8800"), opDirectColor(last, 0, "#00ff80"), opDirectRouteColor(0, 1, 0, 0.5),
						opDirectName(0, "renamed"), opDirectProp(0, -1, "k", 1.5), opDirectProp(0, 0, "key", "v"), opRestore()}
					s := &Seq{Name: fmt.Sprintf("C11 %s sensors=%d draw=%v", x.fn, x.sens, draw), Draw: []float64{draw},
						New: withSensors(devWorld(f, x.attached, static(3), offline(0, 3)), x.sens), Ops: ops, Depth: x.depth, Check: judgePublished,
						Canon: func(w *World) string { return canonDev(w.D) + canonPool(w) }}
					jobs = append(jobs, Job{Name: s.Name, Variant: Plain, Run: func(j *J) { j.BFS(s) }})
				}
			}
			// a path shorter than a step: every step ends it and its sensors are set up anew
			for _, dr := range [][]float64{{0.2, 0.9, 0.5, 0.7, 0.05}, {0, 0.99}, {0.6, 0.1, 0.3, 0.95, 0.4, 0.8, 0.55}} {
				s := &Seq{Name: fmt.Sprintf("C11 short path draws=%v", dr), Draw: dr,
					New: withSensors(devWorld(fixtureByName("one"), true, static(3), pickOff(len(dr))), 3),
					Ops: []SeqOp{opStep(1), opStep(1000), opStep(40), opUpdate(), opResetNav()}, Depth: pick(tier, 6, 9), Max: 40000, Check: judgePublished}
				jobs = append(jobs, Job{Name: s.Name, Variant: Plain, Run: func(j *J) { j.BFS(s) }})
			}
			// two cooperating edits of different routes must both show
			ops := []SeqOp{opStep(1), opUpdate(), opDirectAdd(0, 5, 0), opDirectAdd(1, 5, 0), opDirectRemove(0, 0), opDirectRemove(1, 0), opAddRoute(1), opRemoveRoute(1), opRemoveTrack(0, 1), opDirectColor(0, 0, "#aabbcc"), opDirectColor(1, 0, "#ccbbaa")}
			s := &Seq{Name: "C11 paired edits", Draw: []float64{0.5}, New: devWorld(fixtureByName("two"), true, static(1), skipOff), Ops: ops, Depth: pick(tier, 5, 6), Check: judgePublished,
				Canon: func(w *World) string { return canonDev(w.D) + canonPool(w) }}
			jobs = append(jobs, Job{Name: s.Name, Variant: Plain, Run: func(j *J) { j.BFS(s) }})
			return jobs
		}})
}

func pickOff(n int) devOpt {
	if n%2 == 0 {
		return offline(1, 2)
	}
	return skipOff
}

var _ = navigator.NewRoute
