package harness

import (
	"fmt"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"github.com/mmadfox/go-gpsgen/vshim"
	"google.golang.org/protobuf/proto"
)

// view is everything the accessors of a tracker report.
func view(d *gpsgen.Device) string {
	o := observeDev(d)
	s := o.place() + fmt.Sprintf(" dur=%v bearing=%v offline=%v seg=%v-%v/%v/%d", o.Dur, o.Brg, o.Off, o.Seg.PointA(), o.Seg.PointB(), o.Seg.Bearing(), o.Seg.Index())
	s += fmt.Sprintf(" labels=%q %q %q %q %q version=%v", d.ID(), d.Model(), d.UserID(), d.Descr(), d.Color(), d.Version())
	if o.Route != nil {
		s += " route " + o.Route.ID()
	}
	if o.Track != nil {
		s += " track " + o.Track.ID()
	}
	s += fmt.Sprintf(" routes=%d sensors=%d", d.NumRoutes(), d.NumSensors())
	for _, r := range d.Routes() {
		s += "\n" + r.ID() + canon(r.Snapshot())
	}
	for _, x := range d.Sensors() {
		s += "\n" + x.ID() + fmt.Sprintf("%v %v %v %v %s", x.Min(), x.Max(), x.ValueX(), x.ValueY(), x.Name())
	}
	return s
}

// adopt makes d the world's tracker; the pools then hold d's routes and sensors.
func (w *World) adopt(d *gpsgen.Device) {
	w.D = d
	for i := 0; i < d.NumRoutes(); i++ {
		for k := range w.Pool {
			if w.Pool[k].ID() == d.RouteAt(i).ID() {
				w.Pool[k] = d.RouteAt(i)
			}
		}
	}
	for i := 0; i < d.NumSensors(); i++ {
		for k := range w.Sens {
			if w.Sens[k].ID() == d.SensorAt(i).ID() {
				w.Sens[k] = d.SensorAt(i)
			}
		}
	}
}

// a tracker with a past: routes, sensors, progress, an offline period, time
// owed by a skipped step and other options than any fixture.
func usedTracker(skip bool) *gpsgen.Device {
	n := vshim.UUIDCount()
	defer vshim.ResetUUID(n) // its identifiers must not shift those drawn later
	opts := []devOpt{offline(7, 9), batteryOpt(0, 90*time.Second+750*time.Millisecond), func(o *gpsgen.DeviceOptions) {
		o.Speed.Min, o.Speed.Max, o.Speed.Amplitude = 1, 9, 7
		o.UserID, o.Descr = "someone", "something"
		o.Navigator.Elevation.Min, o.Navigator.Elevation.Max = 5, 900
	}}
	if skip {
		opts = append(opts, skipOff)
	}
	d := newDev("other", opts...)
	d.AddSensor(mkSensor(2), mkSensor(1))
	r1, r2 := route(lineTrack(-30, 100, 4, 6), lineTrack(-31, 100, 9)), route(lineTrack(-32, 100, 100))
	must(d.AddRoute(r1, r2))
	d.Next(0.5)
	d.MoveToRoute(1)
	d.Next(1)
	d.ToOffline()
	d.EachRoute(func(int, *navigator.Route) bool { d.Next(5); return false }) // busy: owes five seconds
	return d
}

type restoreMode struct {
	name    string
	updated bool // both sides refreshed: published states comparable
	follow  int  // length of the compared continuations
	do      func(d *gpsgen.Device) *gpsgen.Device
}

var restoreModes = []restoreMode{
	{"EncodeTracker/DecodeTracker", true, 2, func(d *gpsgen.Device) *gpsgen.Device {
		b, err := gpsgen.EncodeTracker(d)
		must(err)
		r, err := gpsgen.DecodeTracker(b)
		must(err)
		return r
	}},
	{"MarshalBinary/UnmarshalBinary", false, 1, func(d *gpsgen.Device) *gpsgen.Device {
		b, err := d.MarshalBinary()
		must(err)
		r := new(gpsgen.Device)
		must(r.UnmarshalBinary(b))
		return r
	}},
	{"Snapshot/FromSnapshot onto a used tracker", false, 1, func(d *gpsgen.Device) *gpsgen.Device {
		r := usedTracker(false)
		r.FromSnapshot(d.Snapshot())
		return r
	}},
	{"MarshalBinary/UnmarshalBinary onto a used, never offline tracker", false, 1, func(d *gpsgen.Device) *gpsgen.Device {
		b, err := d.MarshalBinary()
		must(err)
		r := usedTracker(true)
		must(r.UnmarshalBinary(b))
		return r
	}},
}

func stateNoStatus(d *gpsgen.Device) string { return canon(d.State()) }

// judgeRestore checks one reached state: saving, restoring, and continuing.
func judgeRestore(c *Tx) {
	s, j := c.S, c.J
	// saving is repeatable and disturbs nothing
	w := s.Rebuild(c.Path)
	d := w.D
	before, v0, snap := canon(d.Snapshot()), view(d), d.Snapshot()
	enc := func() string {
		b, err := gpsgen.EncodeTracker(d)
		if err != nil {
			c.Fail("encode", "EncodeTracker: %v", err)
			return ""
		}
		m := new(pb.Snapshot)
		must(proto.Unmarshal(b, m))
		return canon(m)
	}
	e1, e2 := enc(), enc()
	if e1 != before || e2 != before {
		c.Fail("encode", "encoding is not the tracker's snapshot, or not repeatable")
	}
	if v := view(d); v != v0 {
		c.Fail("disturb", "encoding changed the tracker:\n%s\n%s", v0, v)
	}
	st := stateNoStatus(d) // refreshed by EncodeTracker
	judgeOwed(c, before, v0)
	judgeRollback(c, before, v0, st)
	for mi := range restoreModes {
		m := &restoreModes[mi]
		j.res.Evals++
		r := m.do(d)
		if v := view(r); v != v0 {
			c.Fail("restored", "%s: the restored tracker differs:\n%s\n%s", m.name, v0, v)
			continue
		}
		if x := canon(r.Snapshot()); x != before {
			c.Fail("restored", "%s: the restored tracker's snapshot differs:\n%v\n%v", m.name, snap, r.Snapshot())
			continue
		}
		if x := stateNoStatus(r); x != st {
			c.Fail("restored-state", "%s: the restored tracker publishes another state:\n%v\n%v", m.name, d.State(), r.State())
			continue
		}
		if r.Status() != gpsgen.Stopped {
			c.Fail("restored", "%s: the restored tracker's status is %v", m.name, r.Status())
		}
		// the copy shares nothing with the original
		vr := view(r)
		for _, k := range s.Ops[:min(4, len(s.Ops))] {
			k.Run(w)
		}
		if view(r) != vr || stateNoStatus(r) != st {
			c.Fail("shared", "%s: stepping the original changed the restored copy", m.name)
		}
		if canon(snap) != before {
			c.Fail("shared", "a snapshot already taken was changed by later steps")
		}
		// what follows is the same
		follow := m.follow
		var rec func(path []int)
		rec = func(path []int) {
			if len(path) > 0 {
				j.res.Transitions++
				cont := s.history(path)
				w1, w2 := s.Rebuild(c.Path), (*World)(nil)
				if m.updated {
					_, err := gpsgen.EncodeTracker(w1.D)
					must(err)
				}
				var r1, r2 interface{}
				for _, k := range path {
					r1 = s.Ops[k].Run(w1)
				}
				w2 = s.Rebuild(c.Path)
				w2.adopt(m.do(w2.D))
				for _, k := range path {
					r2 = s.Ops[k].Run(w2)
				}
				if fmt.Sprint(r1) != fmt.Sprint(r2) {
					c.Fail("continue-result", "%s, then %s: returned %v, the original %v", m.name, cont, r2, r1)
					return
				}
				if canon(w1.D.Snapshot()) != canon(w2.D.Snapshot()) {
					c.Fail("continue", "%s, then %s: the restored tracker differs:\noriginal %v\nrestored %v", m.name, cont, w1.D.Snapshot(), w2.D.Snapshot())
					return
				}
				if m.updated && stateNoStatus(w1.D) != stateNoStatus(w2.D) {
					c.Fail("continue-state", "%s, then %s: the restored tracker publishes:\noriginal %v\nrestored %v", m.name, cont, w1.D.State(), w2.D.State())
					return
				}
			}
			if len(path) == follow {
				return
			}
			for k := range s.Ops {
				rec(append(append([]int(nil), path...), k))
			}
		}
		rec(nil)
		// undo the effect of the steps above for the next mode
		w = s.Rebuild(c.Path)
		d = w.D
		d.Update()
	}
}

// refuse makes a step find the tracker busy; it reports whether it could.
func refuse(d *gpsgen.Device, seconds float64) (refused bool) {
	step := func() bool { refused = !d.Next(seconds); return false }
	if d.NumRoutes() > 0 {
		d.EachRoute(func(int, *navigator.Route) bool { return step() })
	} else if d.NumSensors() > 0 {
		d.EachSensor(func(int, *gpsgen.Sensor) bool { return step() })
	}
	return
}

// judgeOwed: a tracker that owes the time of a refused step is saved like any
// other, and saving it, however often, leaves the time owed.
func judgeOwed(c *Tx, before, v0 string) {
	s := c.S
	w := s.Rebuild(c.Path)
	if !refuse(w.D, 2) {
		return
	}
	c.J.res.Evals++
	if x := canon(w.D.Snapshot()); x != before {
		c.Fail("owed", "a snapshot taken after a refused step differs from one taken before it:\n%v", w.D.Snapshot())
		return
	}
	for i := 0; i < 2; i++ {
		b, err := w.D.MarshalBinary()
		must(err)
		m := new(pb.Snapshot)
		must(proto.Unmarshal(b, m))
		if canon(m) != before {
			c.Fail("owed", "a tracker that owes the time of a refused step is encoded as %v", m)
			return
		}
		b, err = gpsgen.EncodeTracker(w.D)
		must(err)
		r, err := gpsgen.DecodeTracker(b)
		must(err)
		if v := view(r); v != v0 {
			c.Fail("owed", "a tracker that owes the time of a refused step is restored as\n%s\nit was\n%s", v, v0)
			return
		}
	}
	o := s.Rebuild(c.Path)
	_, err := gpsgen.EncodeTracker(o.D) // both refreshed
	must(err)
	refuse(o.D, 2)
	for _, t := range []float64{1, 0.5} {
		a, b := w.D.Next(t), o.D.Next(t)
		if a != b || canon(w.D.Snapshot()) != canon(o.D.Snapshot()) || stateNoStatus(w.D) != stateNoStatus(o.D) {
			c.Fail("owed-disturb", "after a refused step of 2 s, saving the tracker changes its step of %v s:\nsaved %v %v\nnot saved %v %v", t, a, w.D.Snapshot(), b, o.D.Snapshot())
			return
		}
	}
}

// twin is a tracker with the versions and counts of the saved one and nothing else of it.
func twin(snap *pb.Snapshot) *gpsgen.Device {
	m := proto.Clone(snap).(*pb.Snapshot)
	m.Id, m.Model, m.UserId, m.Descr, m.Color = "twin", "twins model", "twins user", "the twin", "#010203"
	m.Duration += 77
	m.Tick += 3
	for _, r := range m.Navigator.Routes {
		r.Id, r.Color, r.Name, r.Props = "t"+r.Id, "#112233", "twin route", []byte(`{"twin":true}`)
		r.Distance *= 3
		for _, t := range r.Tracks {
			t.Id, t.Color, t.Name, t.Props = "t"+t.Id, "#223344", "twin track", []byte(`{"twin":1}`)
			t.Distance *= 3
			t.IsClosed = !t.IsClosed
			for _, x := range t.Segmenets {
				x.Distance *= 3
				x.Bearing /= 2
			}
		}
	}
	m.Navigator.Distance *= 3
	m.Navigator.Point.Lat /= 2
	m.Navigator.OfflineIndex++
	m.Battery.Val += 5
	for _, x := range m.Sensors {
		x.Name, x.ValX, x.ValY = "twin", x.ValX+1, x.ValY+1
		x.Id = "t" + x.Id
	}
	d := new(gpsgen.Device)
	d.FromSnapshot(m)
	d.Update()
	return d
}

// judgeRollback: restoring onto a tracker that resembles the saved one in
// everything but its content, and onto the saved tracker itself after it went
// on, gives the saved tracker.
func judgeRollback(c *Tx, before, v0, st string) {
	s := c.S
	same := func(name string, d *gpsgen.Device) bool {
		c.J.res.Evals++
		if v := view(d); v != v0 {
			c.Fail("onto", "%s: the restored tracker differs:\n%s\n%s", name, v0, v)
			return false
		}
		if x := canon(d.Snapshot()); x != before {
			c.Fail("onto", "%s: the restored tracker's snapshot differs: %v", name, d.Snapshot())
			return false
		}
		if x := stateNoStatus(d); x != st {
			c.Fail("onto-state", "%s: the restored tracker publishes another state: %v", name, d.State())
			return false
		}
		o := s.Rebuild(c.Path)
		o.D.Update()
		d.Update()
		for _, t := range []float64{1, 2.5} {
			a, b := o.D.Next(t), d.Next(t)
			if a != b || canon(o.D.Snapshot()) != canon(d.Snapshot()) || stateNoStatus(o.D) != stateNoStatus(d) {
				c.Fail("onto-continue", "%s, then a step of %v: the restored tracker differs:\noriginal %v %v\nrestored %v %v", name, t, a, o.D.Snapshot(), b, d.Snapshot())
				return false
			}
		}
		return true
	}
	w := s.Rebuild(c.Path)
	tw := twin(w.D.Snapshot())
	b, err := w.D.MarshalBinary()
	must(err)
	must(tw.UnmarshalBinary(b))
	if !same("onto a tracker of the same versions", tw) {
		return
	}
	for k := range s.Ops {
		w := s.Rebuild(c.Path)
		b, err := w.D.MarshalBinary()
		must(err)
		s.Ops[k].Run(w)
		must(w.D.UnmarshalBinary(b))
		if !same("onto the tracker itself after "+s.Ops[k].Name, w.D) {
			return
		}
	}
}

func opLabelsOf(i int) SeqOp {
	return SeqOp{Name: fmt.Sprintf("Set labels #%d", i), Kind: "labels", Run: func(w *World) interface{} {
		must(w.D.SetModel(fmt.Sprintf("model-%d", i)))
		must(w.D.SetUserID(fmt.Sprintf("user-%d", i)))
		w.D.SetDescription(fmt.Sprintf("description %d", i))
		must(w.D.SetColor(rgb(0.1*float64(i), 0.4, 0.6)))
		return nil
	}}
}

// ---- the navigator alone ----

type navOp struct {
	name string
	run  func(n *navigator.Navigator) interface{}
}

func navDump(n *navigator.Navigator) string {
	st := &pb.Device{}
	st.Location = &pb.Device_Location{LatDms: &pb.Device_Location_DMS{}, LonDms: &pb.Device_Location_DMS{}, Utm: &pb.Device_Location_UTM{}}
	n.Update(st)
	return canon(n.Snapshot()) + "|" + canon(st) + fmt.Sprint(n.Elevation(), n.Sum(), n.IsOffline(), n.OfflineDuration(), n.Location(), n.CurrentBearing())
}

func navRestoreJob(name string, draw float64, depth, follow int, mk func() *navigator.Navigator, onto []func() *navigator.Navigator) Job {
	ops := []navOp{
		{"NextLocation(1,3)", func(n *navigator.Navigator) interface{} { x := n.NextLocation(1, 3); n.IsFinish(); return x }},
		{"NextLocation(20,3)", func(n *navigator.Navigator) interface{} { x := n.NextLocation(20, 3); n.IsFinish(); return x }},
		{"NextElevation(0.3)", func(n *navigator.Navigator) interface{} { n.NextElevation(0.3); return nil }},
		{"ShuffleElevation", func(n *navigator.Navigator) interface{} { n.ShuffleElevation(); return nil }},
		{"ToOffline", func(n *navigator.Navigator) interface{} { n.ToOffline(); return nil }},
		{"NextRoute", func(n *navigator.Navigator) interface{} { return n.NextRoute() }},
		{"PrevRoute", func(n *navigator.Navigator) interface{} { return n.PrevRoute() }},
		{"MoveToTrack(0,1)", func(n *navigator.Navigator) interface{} { return n.MoveToTrack(0, 1) }},
		{"DestinationTo(13)", func(n *navigator.Navigator) interface{} { return n.DestinationTo(13) }},
		{"RemoveTrack", func(n *navigator.Navigator) interface{} { return n.RemoveTrack("route-0", "track-0-0") }},
		{"RemoveRoute", func(n *navigator.Navigator) interface{} { return n.RemoveRoute("route-0") }},
		{"ResetRoutes", func(n *navigator.Navigator) interface{} { return n.ResetRoutes() }},
		{"AddRoute", func(n *navigator.Navigator) interface{} { return n.AddRoute(fixtureByName("two").build()...) }},
		{"Reset", func(n *navigator.Navigator) interface{} { n.Reset(); return nil }},
	}
	hist := func(p []int) string {
		s := ""
		for _, k := range p {
			s += ops[k].name + "; "
		}
		return s
	}
	build := func(p []int) *navigator.Navigator {
		resetWorld()
		vshim.SetConst(draw)
		n := mk()
		for _, k := range p {
			ops[k].run(n)
		}
		return n
	}
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		seen := map[string]bool{}
		frontier := [][]int{nil}
		fail := func(p []int, kind, format string, a ...interface{}) {
			j.Fail(name+"/"+kind, "navigator "+hist(p), "after %s: %s", hist(p), fmt.Sprintf(format, a...))
		}
		for dpt := 0; dpt <= depth && len(frontier) > 0; dpt++ {
			var next [][]int
			for _, p := range frontier {
				if j.Expired(name) {
					return
				}
				n := build(p)
				dump := navDump(n)
				if k := dump + heapKey(n); seen[k] {
					continue
				}
				seen[dump+heapKey(n)] = true
				j.State()
				for oi, mkOnto := range onto {
					if !j.Want("navigator " + hist(p)) {
						continue
					}
					j.Case("navigator " + hist(p))
					restored := func() *navigator.Navigator {
						a := build(p)
						b := mkOnto()
						must(b.FromSnapshot(a.Snapshot()))
						return b
					}
					if x := navDump(restored()); x != dump {
						fail(p, "restored", "restored onto #%d differs:\n%v\n%v", oi, n.Snapshot(), restored().Snapshot())
						continue
					}
					var rec func(q []int)
					rec = func(q []int) {
						if len(q) > 0 {
							j.Transition()
							j.Eval()
							a := build(p)
							var ra, rb interface{}
							for _, k := range q {
								ra = ops[k].run(a)
							}
							b := restored()
							for _, k := range q {
								rb = ops[k].run(b)
							}
							if fmt.Sprint(ra) != fmt.Sprint(rb) || navDump(a) != navDump(b) {
								fail(p, "continue", "restored onto #%d, then %s: original %v %v, restored %v %v", oi, hist(q), ra, a.Snapshot(), rb, b.Snapshot())
								return
							}
						}
						if len(q) == follow {
							return
						}
						for k := range ops {
							rec(append(append([]int(nil), q...), k))
						}
					}
					rec(nil)
				}
				if dpt < depth {
					for k := range ops {
						next = append(next, append(append([]int(nil), p...), k))
					}
				}
			}
			frontier = next
		}
		j.Note(name, fmt.Sprintf("%d states", len(seen)))
		j.Sample(name + ": restored and continued from every state")
	}}
}

func init() {
	register(&Check{ID: "C13", Level: "model_checking",
		Rule:        "a state is a distinct (snapshot, published state, routes of the pool) reached by operation histories; every state is saved and restored in every way, and every continuation up to the bound is run on the original and on the copy",
		Assumptions: []string{"random draws fixed per exploration so that original and copy draw alike", "curves compared through their control points and through continued steps"},
		Jobs: func(tier string) []Job {
			var jobs []Job
			type cfg struct {
				name  string
				fn    string
				att   bool
				sens  int
				opts  []devOpt
				draws []float64
				depth int
			}
			curved := func(o *gpsgen.DeviceOptions) { o.Speed.Min, o.Speed.Max, o.Speed.Amplitude = 2, 8, 5 }
			cfgs := []cfg{
				{"two curved", "two", true, 2, []devOpt{curved, offline(1, 4)}, []float64{0.2, 0.7}, pick(tier, 2, 3)},
				{"two skip", "two", true, 1, []devOpt{curved, skipOff}, []float64{0.5}, pick(tier, 2, 3)},
				{"three static", "three", true, 0, []devOpt{static(3), offline(0, 3)}, []float64{0.9}, pick(tier, 2, 3)},
				{"none", "two", false, 1, []devOpt{static(0), offline(2, 2)}, []float64{0.4}, pick(tier, 2, 3)},
				{"trackless reversed sensor", "trackless", true, 3, []devOpt{curved, batteryOpt(10, 8750*time.Millisecond)}, []float64{0, 0.6}, pick(tier, 2, 3)},
				{"squares battery", "squares", true, 1, []devOpt{static(4), batteryOpt(50, 20*time.Second), offline(2, 5)}, []float64{0.3}, pick(tier, 2, 3)},
				{"zero segments", "zero-segments", true, 0, []devOpt{curved, offline(1, 1)}, []float64{0.8}, pick(tier, 2, 3)},
				{"antimeridian", "antimeridian", true, 1, []devOpt{static(5), skipOff}, []float64{0.5}, pick(tier, 2, 2)},
			}
			for _, x := range cfgs {
				f := fixtureByName(x.fn)
				last := len(f.routes) - 1
				for _, draw := range x.draws {
					ops := []SeqOp{opStep(1), opStep(2.5), opStep(40), opOffline(), opUpdate(), opMoveRoute(last), opMoveSeg(0, 0, 1), opPrevRoute(), opDestFrac(0.6, 0),
						opResetNav(), opAddRoute(0), opRemoveRoute(0), opRemoveTrack(0, 0), opResetRoutes(), opAddSensor(2), opRemoveSensor(0), opResetSensors(), opLabelsOf(1),
						opDirectAdd(0, 9, 3), opDirectColor(last, 0, "#ff8800"), opDirectName(0, "renamed"), opDirectProp(0, 0, "key", "v"), opDirectProp(last, -1, "k", 1.5)}
					mk := withSensors(devWorld(f, x.att, x.opts...), x.sens)
					if x.sens == 3 {
						mk = func() *World {
							w := withSensors(devWorld(f, x.att, x.opts...), 2)()
							r, err := types.RestoreSensor(w.Sens[2].ID(), "reversed", 30, 4, 5, types.WithSensorRandomMode)
							must(err)
							w.Sens[2] = r
							w.D.AddSensor(r)
							return w
						}
					}
					s := &Seq{Name: fmt.Sprintf("C13 %s draw=%v", x.name, draw), Draw: []float64{draw}, New: mk,
						Ops: ops, Depth: x.depth, Canon: func(w *World) string { return canonDev(w.D) + canonPool(w) }, Final: judgeRestore}
					shards := 8
					for sh := 0; sh < shards; sh++ {
						sh := sh
						s := *s
						n := 0
						s.Final = func(c *Tx) {
							n++
							if c.J.Replay == "" && n%shards != sh {
								return
							}
							judgeRestore(c)
						}
						jobs = append(jobs, Job{Name: fmt.Sprintf("%s part %d", s.Name, sh), Variant: Plain, Run: func(j *J) { j.BFS(&s) }})
					}
				}
			}
			jobs = append(jobs, largeTrackersJob("C13 large trackers", tier))
			two := func(opts ...navigator.Option) func() *navigator.Navigator {
				return func() *navigator.Navigator {
					n, err := navigator.New(opts...)
					must(err)
					must(n.AddRoute(fixtureByName("two").build()...))
					return n
				}
			}
			plain := two(navigator.WithOffline(1, 4), navigator.WithElevation(5, 50, 6, types.WithSensorStartMode))
			never := two(navigator.SkipOfflineMode(), navigator.WithElevation(2, 9, 4, types.WithSensorRandomMode))
			moved := func() *navigator.Navigator {
				n := plain()
				n.NextLocation(2, 4)
				n.NextElevation(0.9)
				n.MoveToTrack(0, 1)
				n.ToOffline()
				return n
			}
			onto := []func() *navigator.Navigator{func() *navigator.Navigator { return new(navigator.Navigator) }, plain, never, moved}
			for i, mk := range []func() *navigator.Navigator{plain, never} {
				jobs = append(jobs, navRestoreJob(fmt.Sprintf("C13 navigator %d", i), 0.45, pick(tier, 2, 3), pick(tier, 1, 2), mk, onto))
			}
			return jobs
		}})
}
