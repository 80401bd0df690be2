package harness

import (
	"fmt"
	"strings"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"github.com/mmadfox/go-gpsgen/vshim"
	"google.golang.org/protobuf/proto"
)

// The tracker worlds calls are made on.

func twoRoutes() []*navigator.Route { return fixtureByName("two").build() }

func spareRoute() *navigator.Route {
	r := navigator.RestoreRoute("route-9", "#0a0b0c", nil)
	t, err := navigator.RestoreTrack("track-9-0", "#010203", fixture{}.points(9, 0, trackSpec{6, 5}))
	must(err)
	r.AddTrack(t)
	return r
}

func trackerWorld(kind string) func() *cworld {
	return func() *cworld {
		w := &cworld{}
		d := newDev("d0", offline(2, 4), batteryOpt(0, 40*time.Second), func(o *gpsgen.DeviceOptions) {
			o.Speed.Min, o.Speed.Max = 1, 3
			o.UserID, o.Descr = "user-0", "descr-0"
		})
		w.D = d
		w.Routes = twoRoutes()
		w.Sens = []*types.Sensor{mkSensor(0), mkSensor(1), mkSensor(2)}
		if kind != "empty" {
			must(d.AddRoute(w.Routes...))
			d.AddSensor(w.Sens[:2]...)
		}
		w.Routes = append(w.Routes, spareRoute())
		d.Next(1)
		b, err := d.MarshalBinary()
		must(err)
		w.Same = b
		d.Next(2)
		switch kind {
		case "end": // the next steps complete the path
			d.MoveToSegment(1, 0, 0)
			d.DestinationTo(d.Distance() - 1)
		case "offline":
			d.ToOffline()
		}
		o := usedTracker(false)
		w.Image, err = o.MarshalBinary()
		must(err)
		return w
	}
}

func plainRes(f func(d *gpsgen.Device) interface{}) func(w *cworld) (string, func() string) {
	return func(w *cworld) (string, func() string) { return fmt.Sprint(f(w.D)), nil }
}

func keptRes(f func(w *cworld) func() string) func(w *cworld) (string, func() string) {
	return func(w *cworld) (string, func() string) {
		l := f(w)
		return l(), l
	}
}

func errRes(err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return "ok"
}

func routeIDs(rs []*navigator.Route) string {
	var s []string
	for _, r := range rs {
		if r == nil {
			s = append(s, "nil")
			continue
		}
		s = append(s, r.ID())
	}
	return "[" + strings.Join(s, " ") + "]"
}

func sensorIDs(rs []*types.Sensor) string {
	var s []string
	for _, r := range rs {
		if r == nil {
			s = append(s, "nil")
			continue
		}
		s = append(s, r.ID())
	}
	return "[" + strings.Join(s, " ") + "]"
}

// trackerCalls lists a call of every exported method of a tracker.
func trackerCalls() (out []call) {
	rd := func(name string, f func(d *gpsgen.Device) interface{}) {
		out = append(out, call{name: name, run: plainRes(f)})
	}
	wr := func(name string, f func(w *cworld) interface{}) {
		out = append(out, call{name: name, write: true, run: func(w *cworld) (string, func() string) { return fmt.Sprint(f(w)), nil }})
	}
	kept := func(name string, f func(w *cworld) func() string) {
		out = append(out, call{name: name, run: keptRes(f)})
	}
	type D = gpsgen.Device
	// steps first: they are the calls everything else meets
	for _, t := range []float64{2, 0.5, 40} {
		t := t
		out = append(out, call{name: fmt.Sprintf("Next(%v)", t), write: true, step: t})
	}
	wr("SetModel", func(w *cworld) interface{} { return errRes(w.D.SetModel("model-new")) })
	wr("SetUserID", func(w *cworld) interface{} { return errRes(w.D.SetUserID("user-new")) })
	wr("SetDescription", func(w *cworld) interface{} { w.D.SetDescription("descr-new"); return nil })
	wr("SetColor", func(w *cworld) interface{} { return errRes(w.D.SetColor(rgb(1, 0, 0.5))) })
	wr("AddSensor(#2)", func(w *cworld) interface{} { w.D.AddSensor(w.Sens[2]); return nil })
	wr("AddSensor(#0,#1)", func(w *cworld) interface{} { w.D.AddSensor(w.Sens[0], w.Sens[1]); return nil })
	wr("ResetSensors", func(w *cworld) interface{} { w.D.ResetSensors(); return nil })
	wr("RemoveSensor(#0)", func(w *cworld) interface{} { return w.D.RemoveSensor(w.Sens[0].ID()) })
	wr("AddRoute(#2)", func(w *cworld) interface{} { return errRes(w.D.AddRoute(w.Routes[2])) })
	wr("AddRoute(#0)", func(w *cworld) interface{} { return errRes(w.D.AddRoute(w.Routes[0])) })
	wr("RemoveRoute(#0)", func(w *cworld) interface{} { return w.D.RemoveRoute(w.Routes[0].ID()) })
	wr("RemoveTrack(#0,1)", func(w *cworld) interface{} { return w.D.RemoveTrack(w.Routes[0].ID(), "track-0-1") })
	wr("ResetRoutes", func(w *cworld) interface{} { return w.D.ResetRoutes() })
	wr("ResetNavigator", func(w *cworld) interface{} { w.D.ResetNavigator(); return nil })
	wr("Update", func(w *cworld) interface{} { w.D.Update(); return nil })
	wr("DestinationTo(30)", func(w *cworld) interface{} { return w.D.DestinationTo(30) })
	wr("MoveToSegment(0,1,1)", func(w *cworld) interface{} { return w.D.MoveToSegment(0, 1, 1) })
	wr("MoveToTrack(0,1)", func(w *cworld) interface{} { return w.D.MoveToTrack(0, 1) })
	wr("MoveToRoute(1)", func(w *cworld) interface{} { return w.D.MoveToRoute(1) })
	wr("MoveToTrackByID", func(w *cworld) interface{} { return w.D.MoveToTrackByID("route-0", "track-0-1") })
	wr("MoveToRouteByID", func(w *cworld) interface{} { return w.D.MoveToRouteByID("route-1") })
	wr("ToNextRoute", func(w *cworld) interface{} { return w.D.ToNextRoute() })
	wr("ToPrevRoute", func(w *cworld) interface{} { return w.D.ToPrevRoute() })
	wr("ToOffline", func(w *cworld) interface{} { w.D.ToOffline(); return nil })
	out = append(out, call{name: "UnmarshalBinary(other)", write: true, drop: true, run: func(w *cworld) (string, func() string) { return errRes(w.D.UnmarshalBinary(w.Image)), nil }})
	out = append(out, call{name: "UnmarshalBinary(earlier)", write: true, drop: true, run: func(w *cworld) (string, func() string) { return errRes(w.D.UnmarshalBinary(w.Same)), nil }})
	out = append(out, call{name: "FromSnapshot", write: true, drop: true, run: func(w *cworld) (string, func() string) {
		s := new(pb.Snapshot)
		must(proto.Unmarshal(w.Image, s))
		w.D.FromSnapshot(s)
		return "", nil
	}})
	wr("UnmarshalBinary(bad)", func(w *cworld) interface{} { return w.D.UnmarshalBinary([]byte{0x0a, 1, 'x'}) != nil })
	// what is handed out
	kept("State", func(w *cworld) func() string { s := w.D.State(); return func() string { return canon(s) } })
	kept("Snapshot", func(w *cworld) func() string { s := w.D.Snapshot(); return func() string { return canon(s) } })
	kept("MarshalBinary", func(w *cworld) func() string {
		b, err := w.D.MarshalBinary()
		must(err)
		return func() string {
			m := new(pb.Snapshot) // map order is free
			must(proto.Unmarshal(b, m))
			return canon(m)
		}
	})
	kept("Routes", func(w *cworld) func() string { l := w.D.Routes(); return func() string { return routeIDs(l) } })
	kept("Sensors", func(w *cworld) func() string { l := w.D.Sensors(); return func() string { return sensorIDs(l) } })
	kept("EachRoute", func(w *cworld) func() string {
		var l []*navigator.Route
		w.D.EachRoute(func(i int, r *navigator.Route) bool {
			if i != len(l) {
				panic("index")
			}
			l = append(l, r)
			return true
		})
		return func() string { return routeIDs(l) }
	})
	kept("EachSensor", func(w *cworld) func() string {
		var l []*types.Sensor
		w.D.EachSensor(func(_ int, r *types.Sensor) bool { l = append(l, r); return true })
		return func() string { return sensorIDs(l) }
	})
	kept("CurrentSegment", func(w *cworld) func() string {
		s := w.D.CurrentSegment()
		return func() string {
			return fmt.Sprintf("%v-%v/%v/%v/%d", s.PointA(), s.PointB(), s.Bearing(), s.Distance(), s.Index())
		}
	})
	rd("ID", func(d *D) interface{} { return d.ID() })
	rd("Model", func(d *D) interface{} { return d.Model() })
	rd("UserID", func(d *D) interface{} { return d.UserID() })
	rd("Descr", func(d *D) interface{} { return d.Descr() })
	rd("Color", func(d *D) interface{} { return d.Color() })
	rd("NumRoutes", func(d *D) interface{} { return d.NumRoutes() })
	rd("NumSensors", func(d *D) interface{} { return d.NumSensors() })
	rd("SensorAt(1)", func(d *D) interface{} { return sensorIDs([]*types.Sensor{d.SensorAt(1)}) })
	rd("SensorByID(#0)", func(d *D) interface{} {
		s, ok := d.SensorByID(sensor0ID())
		return sensorIDs([]*types.Sensor{s}) + fmt.Sprint(ok)
	})
	rd("RouteAt(1)", func(d *D) interface{} { return routeIDs([]*navigator.Route{d.RouteAt(1)}) })
	rd("CurrentRoute", func(d *D) interface{} { return routeIDs([]*navigator.Route{d.CurrentRoute()}) })
	rd("CurrentTrack", func(d *D) interface{} {
		if t := d.CurrentTrack(); t != nil {
			return t.ID()
		}
		return nil
	})
	rd("CurrentBearing", func(d *D) interface{} { return d.CurrentBearing() })
	rd("Distance", func(d *D) interface{} { return d.Distance() })
	rd("CurrentDistance", func(d *D) interface{} { return d.CurrentDistance() })
	rd("RouteDistance", func(d *D) interface{} { return d.RouteDistance() })
	rd("CurrentRouteDistance", func(d *D) interface{} { return d.CurrentRouteDistance() })
	rd("TrackDistance", func(d *D) interface{} { return d.TrackDistance() })
	rd("CurrentTrackDistance", func(d *D) interface{} { return d.CurrentTrackDistance() })
	rd("SegmentDistance", func(d *D) interface{} { return d.SegmentDistance() })
	rd("CurrentSegmentDistance", func(d *D) interface{} { return d.CurrentSegmentDistance() })
	rd("IsFinish", func(d *D) interface{} { return d.IsFinish() })
	rd("IsOffline", func(d *D) interface{} { return d.IsOffline() })
	rd("RouteIndex", func(d *D) interface{} { return d.RouteIndex() })
	rd("TrackIndex", func(d *D) interface{} { return d.TrackIndex() })
	rd("SegmentIndex", func(d *D) interface{} { return d.SegmentIndex() })
	rd("Location", func(d *D) interface{} { return d.Location() })
	rd("Duration", func(d *D) interface{} { return d.Duration() })
	rd("Version", func(d *D) interface{} { return d.Version() })
	rd("Status", func(d *D) interface{} { return d.Status() })
	return out
}

func sensor0ID() string { return "00000000-0000-4000-9000-000000000001" }

func callNamed(cs []call, name string) call {
	for _, c := range cs {
		if c.name == name {
			return c
		}
	}
	panic("no call " + name)
}

// trackerFinal is what tells two trackers apart, now and in the next steps.
func trackerFinal(w *cworld) string {
	show := func() string { return view(w.D) + "\n" + canon(w.D.Snapshot()) + "\n" + canon(w.D.State()) }
	s := show()
	t := 1.0
	if w.seq && w.D.NumRoutes() > 0 {
		t += w.owed
	}
	ok := w.D.Next(t)
	s += fmt.Sprintf("\nNext %v\n", ok) + show()
	if !w.seq || w.D.NumRoutes() > 0 {
		w.owed = 0
	}
	w.D.ToOffline()
	ok = w.D.Next(0.25)
	return s + fmt.Sprintf("\nNext %v\n", ok) + show()
}

func callPairsJob(kind, variant string, a call, bound int, want func(a, b call) bool) Job {
	return callPairsAtJob(kind, variant, a, bound, ptsDevice, want)
}

func callPairsAtJob(kind, variant string, a call, bound int, classes uint32, want func(a, b call) bool) Job {
	pre := "C05 " + kind
	if variant == Race {
		pre = "C05 race " + kind
	}
	if classes&ptsNav != 0 {
		pre += " (navigator statements, too)"
	}
	name := fmt.Sprintf("%s %s || *", pre, a.name)
	return Job{Name: name, Variant: variant, Run: func(j *J) {
		for _, b := range trackerCalls() {
			if !want(a, b) {
				continue
			}
			c := &concCase{name: fmt.Sprintf("%s %s || %s", pre, a.name, b.name), mk: trackerWorld(kind), threads: [][]call{{a}, {b}}, final: trackerFinal}
			cfg := vshim.Config{Classes: classes}
			sc := c.scenario(bound, cfg)
			j.Explore(sc)
			if j.Expired(name) {
				return
			}
		}
	}}
}

func threadsJob(kind, variant string, bound int, threads [][]string) Job {
	var parts []string
	for _, t := range threads {
		parts = append(parts, strings.Join(t, "; "))
	}
	pre := "C05 " + kind + " "
	if variant == Race {
		pre = "C05 race " + kind + " "
	}
	name := pre + strings.Join(parts, " || ")
	return Job{Name: name, Variant: variant, Shards: 1, Run: func(j *J) {
		all := trackerCalls()
		c := &concCase{name: name, mk: trackerWorld(kind), final: trackerFinal}
		for _, t := range threads {
			var cs []call
			for _, n := range t {
				cs = append(cs, callNamed(all, n))
			}
			c.threads = append(c.threads, cs)
		}
		j.Explore(c.scenario(bound, vshim.Config{Classes: ptsDevice}))
	}}
}

var c05Threads = [][][]string{
	{{"Next(2)", "Next(0.5)"}, {"State", "State"}},
	{{"Next(2)", "Next(0.5)"}, {"Snapshot"}, {"Update"}},
	{{"Next(2)"}, {"Next(0.5)"}, {"State"}},
	{{"Next(2)"}, {"Next(0.5)"}, {"UnmarshalBinary(earlier)"}},
	{{"Next(2)"}, {"AddRoute(#2)", "MoveToRoute(1)"}, {"Routes"}},
	{{"Next(2)", "State"}, {"RemoveRoute(#0)", "AddRoute(#0)"}},
	{{"Next(2)", "State"}, {"RemoveSensor(#0)", "AddSensor(#2)"}},
	{{"Next(2)"}, {"ResetSensors", "AddSensor(#2)"}, {"Sensors"}},
	{{"Next(2)"}, {"SetModel", "SetUserID", "SetDescription"}, {"State"}},
	{{"Next(2)"}, {"ToOffline"}, {"DestinationTo(30)"}},
	{{"Next(2)"}, {"MoveToTrack(0,1)", "Next(0.5)"}, {"ResetNavigator"}},
	{{"Next(40)"}, {"Next(40)"}, {"UnmarshalBinary(other)", "State"}},
	{{"AddSensor(#2)"}, {"AddSensor(#2)"}, {"RemoveSensor(#0)"}},
	{{"AddRoute(#2)"}, {"RemoveTrack(#0,1)"}, {"ResetRoutes"}},
	{{"Routes", "AddRoute(#2)"}, {"RemoveRoute(#0)", "Next(2)"}},
	{{"Sensors", "AddSensor(#2)"}, {"RemoveSensor(#0)", "Next(2)"}},
	{{"Snapshot", "UnmarshalBinary(other)"}, {"Next(2)", "MarshalBinary"}},
}

func init() {
	register(&Check{ID: "C05", Level: "model_checking",
		Rule:        "an execution is one schedule of two or three threads making calls on one tracker; its results and the final state (and the two next steps) must equal those of a sequential order of the same calls on the real code that respects the order in which calls returned, a step that met another call possibly skipped",
		Assumptions: []string{"scheduling points at every statement and lock operation of the tracker; other packages run atomically between them", "random draws fixed", "race detection covers the explored schedules"},
		Jobs: func(tier string) []Job {
			th := tier == "thorough"
			var jobs []Job
			any := func(a, b call) bool { return a.write || b.write }
			for _, a := range trackerCalls() {
				b := 1
				if th || a.step == 2 || a.drop {
					b = 2
				}
				jobs = append(jobs, callPairsJob("mid", Sched, a, b, any))
				jobs = append(jobs, callPairsAtJob("mid", Sched, a, 1, ptsDevice|ptsNav, func(a, b call) bool {
					return th && any(a, b) || a.step == 2 && b.name != "Next(40)" || b.step == 2
				}))
			}
			for _, kind := range []string{"end", "offline", "empty"} {
				for _, a := range trackerCalls() {
					if !th && a.step == 0 {
						continue
					}
					jobs = append(jobs, callPairsJob(kind, Sched, a, pick(tier, 1, 2), any))
				}
			}
			for _, t := range c05Threads {
				jobs = append(jobs, threadsJob("mid", Sched, pick(tier, 2, 3), t))
			}
			// a call met by two readings in a row
			for _, a := range trackerCalls() {
				if !a.write {
					continue
				}
				for _, kind := range []string{"mid", "empty"} {
					for _, r := range [][]string{{"Snapshot", "State"}, {"State", "Snapshot"}, {"Routes", "State"}, {"Sensors", "State"}, {"Snapshot", "NumRoutes"}, {"Distance", "Location"}} {
						if kind == "empty" && !th && r[0] != "Snapshot" {
							continue
						}
						jobs = append(jobs, threadsJob(kind, Sched, pick(tier, 1, 2), [][]string{{a.name}, r}))
					}
				}
			}
			for _, a := range trackerCalls() {
				jobs = append(jobs, callPairsJob("mid", Race, a, pick(tier, 0, 1), func(a, b call) bool { return true }))
			}
			for _, t := range c05Threads {
				jobs = append(jobs, threadsJob("mid", Race, pick(tier, 1, 2), t))
			}
			return jobs
		}})
}
