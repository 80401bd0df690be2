package harness

import (
	"fmt"
	"strings"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/random"
	"github.com/mmadfox/go-gpsgen/types"
	"github.com/mmadfox/go-gpsgen/vshim"
	"google.golang.org/protobuf/proto"
)

// ---- two trackers that have something in common ----

// pairWorld holds two trackers; d[s] is the one of side s.
type pairWorld struct {
	d     [2]*gpsgen.Device
	input proto.Message // what both were made from, if it could be altered
	image []byte
}

type pairKind struct {
	name string
	mk   func() *pairWorld
	own  bool // the routes are not shared: they may be edited, too
}

type pairOp struct {
	name string
	edit bool // edits a route or sensor object
	run  func(d *gpsgen.Device) string
}

func c24Dev(id string, opts ...devOpt) *gpsgen.Device {
	return newDev(id, append([]devOpt{offline(2, 4), batteryOpt(0, 60*time.Second), func(o *gpsgen.DeviceOptions) {
		o.Speed.Min, o.Speed.Max = 1, 3
		o.UserID, o.Descr = "user", "descr"
	}}, opts...)...)
}

func lastTrack() *navigator.Track {
	t, err := navigator.RestoreTrack("track-extra", "#010203", fixture{}.points(7, 3, trackSpec{8, 2}))
	must(err)
	return t
}

// a tracker under way, the origin of images
func travelled() *gpsgen.Device {
	d := c24Dev("origin")
	rs := twoRoutes()
	rs[0].Props().Set("k", "v")
	rs[0].TrackAt(0).Props().Set("t", 1.5)
	must(d.AddRoute(rs...))
	d.AddSensor(mkSensor(0), mkSensor(1))
	d.Next(1)
	d.Next(2)
	return d
}

func pairKinds() []pairKind {
	fill := func(d *gpsgen.Device, rs []*navigator.Route, sensor int) {
		must(d.AddRoute(rs...))
		d.AddSensor(mkSensor(sensor))
	}
	decodeTwice := func(data []byte, err error, dec func([]byte) ([]*navigator.Route, error)) *pairWorld {
		must(err)
		w := &pairWorld{image: data}
		for s, id := range []string{"a", "b"} {
			rs, err := dec(data)
			must(err)
			w.d[s] = c24Dev(id)
			fill(w.d[s], rs, s)
		}
		return w
	}
	return []pairKind{
		{"made from one options value", func() *pairWorld {
			o := gpsgen.NewDeviceOptions()
			o.Model, o.Color = "model-x", "#112233"
			o.Speed.Min, o.Speed.Max, o.Speed.Amplitude = 1, 3, 4
			o.Navigator.Elevation.Min, o.Navigator.Elevation.Max, o.Navigator.Elevation.Amplitude = 0, 100, 4
			o.Navigator.Offline.Min, o.Navigator.Offline.Max = 2, 4
			w := &pairWorld{}
			for s, id := range []string{"a", "b"} {
				o.ID = id
				d, err := gpsgen.NewDevice(o)
				must(err)
				w.d[s] = d
				fill(d, twoRoutes(), s)
			}
			return w
		}, true},
		{"given the same routes", func() *pairWorld {
			rs := twoRoutes()
			w := &pairWorld{d: [2]*gpsgen.Device{c24Dev("a"), c24Dev("b", static(2))}}
			fill(w.d[0], rs, 0)
			fill(w.d[1], rs, 1)
			return w
		}, false},
		{"of one ready-made kind", func() *pairWorld {
			w := &pairWorld{d: [2]*gpsgen.Device{gpsgen.NewAnimalTracker(), gpsgen.NewAnimalTracker()}}
			fill(w.d[0], twoRoutes(), 0)
			fill(w.d[1], twoRoutes(), 1)
			return w
		}, true},
		{"restored from one image", func() *pairWorld {
			b, err := travelled().MarshalBinary()
			must(err)
			w := &pairWorld{image: b}
			for s := range w.d {
				w.d[s], err = gpsgen.DecodeTracker(b)
				must(err)
			}
			return w
		}, true},
		{"restored from one snapshot", func() *pairWorld {
			sn := travelled().Snapshot()
			w := &pairWorld{input: sn, d: [2]*gpsgen.Device{c24Dev("a"), usedTracker(true)}}
			w.d[0].FromSnapshot(sn)
			w.d[1].FromSnapshot(sn)
			return w
		}, true},
		{"restored one from the other", func() *pairWorld {
			a := travelled()
			sn := a.Snapshot()
			b := c24Dev("b")
			b.FromSnapshot(sn)
			return &pairWorld{input: sn, d: [2]*gpsgen.Device{a, b}}
		}, true},
		{"with routes decoded from one image", func() *pairWorld {
			b, err := gpsgen.EncodeRoutes(twoRoutes())
			return decodeTwice(b, err, gpsgen.DecodeRoutes)
		}, true},
		{"with routes decoded from one GeoJSON document", func() *pairWorld {
			b, err := gpsgen.EncodeGeoJSONRoutes(twoRoutes())
			return decodeTwice(b, err, gpsgen.DecodeGeoJSONRoutes)
		}, true},
		{"with routes decoded from one GPX document", func() *pairWorld {
			b, err := gpsgen.EncodeGPXRoutes(twoRoutes())
			return decodeTwice(b, err, gpsgen.DecodeGPXRoutes)
		}, true},
	}
}

func pairOps() []pairOp {
	op := func(n string, f func(d *gpsgen.Device) interface{}) pairOp {
		return pairOp{n, false, func(d *gpsgen.Device) string { return fmt.Sprint(f(d)) }}
	}
	ed := func(n string, f func(d *gpsgen.Device) interface{}) pairOp {
		o := op(n, f)
		o.edit = true
		return o
	}
	return []pairOp{
		op("Next(2)", func(d *gpsgen.Device) interface{} { return d.Next(2) }),
		op("Next(50)", func(d *gpsgen.Device) interface{} { return d.Next(50) }),
		op("ToOffline", func(d *gpsgen.Device) interface{} { d.ToOffline(); return nil }),
		op("MoveToTrack(0,1)", func(d *gpsgen.Device) interface{} { return d.MoveToTrack(0, 1) }),
		op("DestinationTo(30)", func(d *gpsgen.Device) interface{} { return d.DestinationTo(30) }),
		op("ResetNavigator", func(d *gpsgen.Device) interface{} { d.ResetNavigator(); return nil }),
		op("RemoveRoute(last)", func(d *gpsgen.Device) interface{} {
			if n := d.NumRoutes(); n > 0 {
				return d.RemoveRoute(d.RouteAt(n - 1).ID())
			}
			return nil
		}),
		op("sensors", func(d *gpsgen.Device) interface{} {
			d.AddSensor(mkSensor(2))
			if d.NumSensors() > 2 {
				d.ResetSensors()
			}
			return d.NumSensors()
		}),
		op("labels", func(d *gpsgen.Device) interface{} {
			d.SetDescription(d.Descr() + "!")
			_ = d.SetUserID(d.UserID() + "?")
			return errRes(d.SetModel("model-new")) + errRes(d.SetColor(rgb(0, 1, 0)))
		}),
		op("encode", func(d *gpsgen.Device) interface{} {
			b, err := d.MarshalBinary()
			must(err)
			e := new(gpsgen.Device)
			return errRes(e.UnmarshalBinary(b))
		}),
		ed("route colour and name", func(d *gpsgen.Device) interface{} {
			r := d.CurrentRoute()
			if r == nil {
				return nil
			}
			return errRes(r.ChangeColor(rgb(1, 0, 0))) + errRes(r.ChangeName("renamed"))
		}),
		ed("route properties", func(d *gpsgen.Device) interface{} {
			r := d.CurrentRoute()
			if r == nil {
				return nil
			}
			r.Props().Set("k", "other")
			if t := r.TrackAt(0); t != nil {
				t.Props().Remove("t")
				t.Props().Set("u", true)
				return errRes(t.ChangeColor("#00ffff"))
			}
			return nil
		}),
		ed("add a track", func(d *gpsgen.Device) interface{} {
			if r := d.RouteAt(0); r != nil {
				r.AddTrack(lastTrack())
				return r.NumTracks()
			}
			return nil
		}),
		ed("remove a track", func(d *gpsgen.Device) interface{} {
			if r := d.RouteAt(0); r != nil && r.NumTracks() > 0 {
				return d.RemoveTrack(r.ID(), r.TrackAt(0).ID())
			}
			return nil
		}),
	}
}

// twinsJob runs every interleaving of operations on two trackers and compares
// each tracker with one on which only its own operations were carried out.
func twinsJob(kind pairKind, depth int) Job {
	name := "C24 two trackers " + kind.name
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		ops := pairOps()
		if !kind.own {
			var keep []pairOp
			for _, o := range ops {
				if !o.edit {
					keep = append(keep, o)
				}
			}
			ops = keep
		}
		show := func(d *gpsgen.Device) string { return view(d) + "\n" + canon(d.Snapshot()) + "\n" + canon(d.State()) }
		var input string
		inputOf := func(w *pairWorld) string {
			s := string(w.image)
			if w.input != nil {
				s += canon(w.input)
			}
			return s
		}
		alone := [2]map[string]string{{}, {}}
		// the transcript of a side's last operation, were it alone
		expect := func(s int, p []int) string {
			var own []int
			for _, k := range p {
				if k%2 == s {
					own = append(own, k/2)
				}
			}
			key := fmt.Sprint(own)
			if t, ok := alone[s][key]; ok {
				return t
			}
			resetWorld()
			w := kind.mk()
			res := ""
			for _, k := range own {
				res = ops[k].run(w.d[s])
			}
			t := res + "\n" + show(w.d[s])
			alone[s][key] = t
			return t
		}
		seen := map[uint64]struct{}{}
		frontier := [][]int{nil}
		for n := 0; n <= depth && len(frontier) > 0; n++ {
			var next [][]int
			for _, p := range frontier {
				if j.Expired(fmt.Sprintf("%s at depth %d", name, n)) {
					return
				}
				var b strings.Builder
				b.WriteString(kind.name)
				for _, k := range p {
					fmt.Fprintf(&b, "; %c.%s", 'a'+k%2, ops[k/2].name)
				}
				cs := b.String()
				if j.Replay != "" && !strings.HasPrefix(j.Replay, cs) {
					continue
				}
				j.Case(cs)
				j.Protect(name+"/panic", cs, func() {
					want := [2]string{expect(0, p), expect(1, p)}
					resetWorld()
					w := kind.mk()
					if input == "" {
						input = inputOf(w)
					}
					var res [2]string
					for _, k := range p {
						res[k%2] = ops[k/2].run(w.d[k%2])
					}
					j.Eval()
					j.Transition()
					for s := range w.d {
						if got := res[s] + "\n" + show(w.d[s]); got != want[s] {
							j.Fail(name+"/interference", cs, "after %s: tracker %c is not as it is when the other is left alone:%s", cs, 'a'+s, firstDiff(want[s], got))
							return
						}
					}
					if inputOf(w) != input {
						j.Fail(name+"/input", cs, "after %s: what the trackers were made from was altered", cs)
						return
					}
					h := h64(show(w.d[0]) + show(w.d[1]) + heapKey(w.d[0], w.d[1]))
					if _, dup := seen[h]; dup {
						return
					}
					seen[h] = struct{}{}
					j.State()
					j.Trace()
					if n == depth {
						j.Sample(cs)
						return
					}
					for k := 0; k < 2*len(ops); k++ {
						next = append(next, append(append([]int(nil), p...), k))
					}
				})
				if j.fails > 20 {
					return
				}
			}
			frontier = next
		}
		j.Note(name, fmt.Sprintf("depth %d, %d operations on each side, %d states", depth, len(ops), len(seen)))
	}}
}

// ---- concurrently ----

// bothCalls turns operations into calls on one of two trackers.
func bothCalls(side int, o pairOp) call {
	return call{name: fmt.Sprintf("%c.%s", 'a'+side, o.name), write: true, run: func(w *cworld) (string, func() string) {
		return o.run(w.Devs[side]), nil
	}}
}

func pairSched(kind pairKind, variant string, bound int, classes uint32, which func(a, b pairOp) bool) []Job {
	var jobs []Job
	for ai, a := range pairOps() {
		if a.edit && !kind.own {
			continue
		}
		ai, a := ai, a
		pre := "C24 "
		if variant == Race {
			pre = "C24 race "
		}
		name := fmt.Sprintf("%stwo trackers %s: a.%s || b.*", pre, kind.name, a.name)
		jobs = append(jobs, Job{Name: name, Variant: variant, Run: func(j *J) {
			for bi, b := range pairOps() {
				if b.edit && !kind.own || bi < ai || !which(a, b) {
					continue
				}
				c := &concCase{name: fmt.Sprintf("%stwo trackers %s: a.%s || b.%s", pre, kind.name, a.name, b.name),
					mk: func() *cworld {
						p := kind.mk()
						return &cworld{D: p.d[0], Devs: p.d[:]}
					},
					threads: [][]call{{bothCalls(0, a)}, {bothCalls(1, b)}},
					final: func(w *cworld) string {
						s := ""
						for _, d := range w.Devs {
							s += view(d) + "\n" + canon(d.Snapshot()) + "\n" + canon(d.State())
						}
						return s
					}}
				j.Explore(c.scenario(bound, vshim.Config{Classes: classes}))
				if j.Expired(name) {
					return
				}
			}
		}})
	}
	return jobs
}

// packageCalls are calls that belong to no tracker. They share the world's
// routes, sensors and images, which they only read.
func packageCalls() []call {
	c := func(n string, f func(w *cworld) interface{}) call {
		return call{name: n, write: true, run: func(w *cworld) (string, func() string) { return fmt.Sprint(f(w)), nil }}
	}
	geometry := func(r *navigator.Route) string {
		s := fmt.Sprintf("%d tracks, %v m:", r.NumTracks(), r.Distance())
		r.EachTrack(func(_ int, t *navigator.Track) bool {
			for i := 0; i < t.NumSegments(); i++ {
				s += fmt.Sprint(t.SegmentAt(i).PointA())
			}
			return true
		})
		return s
	}
	return []call{
		c("NewTracker", func(w *cworld) interface{} { return gpsgen.NewTracker().Model() }),
		c("NewDroneTracker", func(w *cworld) interface{} {
			d := gpsgen.NewDroneTracker()
			must(d.AddRoute(twoRoutes()...))
			return fmt.Sprint(d.Next(2), d.Location(), d.Color())
		}),
		c("NewDevice", func(w *cworld) interface{} { return view(c24Dev("x")) }),
		c("AddRoute of shared routes", func(w *cworld) interface{} {
			d := c24Dev("y")
			must(d.AddRoute(w.Routes...))
			return fmt.Sprint(d.Next(2), canon(d.State()))
		}),
		c("NewSensor", func(w *cworld) interface{} {
			s, err := types.NewSensor("s", 0, 5, 8, types.WithSensorRandomMode)
			must(err)
			s.Next(0.4)
			s.Shuffle()
			s.Next(0.6)
			return s.ValueY()
		}),
		c("RandomRoute", func(w *cworld) interface{} { return geometry(gpsgen.RandomRoute(2, 48, 2, gpsgen.RouteLevelM)) }),
		c("RandomRouteForParis", func(w *cworld) interface{} { return geometry(gpsgen.RandomRouteForParis()) }),
		c("LatLonByCountry", func(w *cworld) interface{} {
			p, err := random.LatLonByCountry("fr")
			return fmt.Sprint(p, errRes(err))
		}),
		c("LatLon", func(w *cworld) interface{} { return random.LatLon() }),
		c("countries", func(w *cworld) interface{} {
			n := 0
			random.EachCountry(func(code, name string) { n += len(code) + len(name) })
			s, err := random.CountryName("de")
			b, err2 := random.BoundingBox("zz")
			return fmt.Sprint(n, s, errRes(err), b, errRes(err2))
		}),
		c("String", func(w *cworld) interface{} { return random.String(5) }),
		c("Polygon", func(w *cworld) interface{} { return random.Polygon(6, 2) }),
		c("EncodeRoutes", func(w *cworld) interface{} {
			b, err := gpsgen.EncodeRoutes(w.Routes)
			return fmt.Sprint(len(b), errRes(err))
		}),
		c("DecodeRoutes", func(w *cworld) interface{} {
			rs, err := gpsgen.DecodeRoutes(w.Image)
			return routeIDs(rs) + errRes(err)
		}),
		c("EncodeGeoJSONRoutes", func(w *cworld) interface{} {
			b, err := gpsgen.EncodeGeoJSONRoutes(w.Routes)
			must(err)
			rs, err := gpsgen.DecodeGeoJSONRoutes(b)
			return routeIDs(rs) + errRes(err)
		}),
		c("EncodeGPXRoutes", func(w *cworld) interface{} {
			b, err := gpsgen.EncodeGPXRoutes(w.Routes)
			must(err)
			rs, err := gpsgen.DecodeGPXRoutes(b)
			return routeIDs(rs) + errRes(err)
		}),
		c("EncodeSensors", func(w *cworld) interface{} {
			b, err := gpsgen.EncodeSensors(w.Sens)
			must(err)
			ss, err := gpsgen.DecodeSensors(b)
			return sensorIDs(ss) + errRes(err)
		}),
		c("EncodeTracker", func(w *cworld) interface{} {
			b, err := gpsgen.EncodeTracker(w.D)
			must(err)
			d, err := gpsgen.DecodeTracker(b)
			must(err)
			return fmt.Sprint(d.Next(1), view(d))
		}),
		c("PacketFromBytes", func(w *cworld) interface{} {
			b, err := proto.Marshal(&pb.Packet{Devices: []*pb.Device{w.D.State(), w.D.State()}, Timestamp: 7})
			must(err)
			p, err := gpsgen.PacketFromBytes(b)
			must(err)
			return canon(p)
		}),
		c("read routes", func(w *cworld) interface{} {
			s := ""
			for _, r := range w.Routes {
				s += geometry(r) + fmt.Sprint(len(r.Props()), r.Name(), r.Color(), canon(r.Snapshot()))
				r.EachTrack(func(_ int, t *navigator.Track) bool { s += fmt.Sprint(len(t.Props()), t.Color()); return true })
			}
			return s
		}),
	}
}

func packageWorld() *cworld {
	w := &cworld{D: travelled(), Routes: twoRoutes(), Sens: []*types.Sensor{mkSensor(0), mkSensor(1)}}
	b, err := gpsgen.EncodeRoutes(twoRoutes())
	must(err)
	w.Image = b
	return w
}

func packageJobs(variant string, bound int, classes uint32) []Job {
	var jobs []Job
	pre := "C24 functions "
	if variant == Race {
		pre = "C24 race functions "
	}
	all := packageCalls()
	for i, a := range all {
		i, a := i, a
		name := pre + a.name + " || *"
		jobs = append(jobs, Job{Name: name, Variant: variant, Run: func(j *J) {
			for _, b := range all[i:] {
				c := &concCase{name: pre + a.name + " || " + b.name, mk: packageWorld, threads: [][]call{{a}, {b}},
					final: func(w *cworld) string {
						s := view(w.D)
						for _, r := range w.Routes {
							s += canon(r.Snapshot())
						}
						return s
					}}
				j.Explore(c.scenario(bound, vshim.Config{Classes: classes}))
				if j.Expired(name) {
					return
				}
			}
		}})
	}
	return jobs
}

// ---- two generators at once ----

type twoGenCfg struct {
	n       [2]int
	workers [2]int
	iv      [2]time.Duration
	bound   int
	variant string
	shared  bool // the trackers share their routes
	pass    bool // a tracker moves from the first generator to the second
}

func twoGenScenario(c twoGenCfg) *Scenario {
	pre := "C24 "
	if c.variant == Race {
		pre = "C24 race "
	}
	name := fmt.Sprintf("%stwo generators n=%v w=%v every %v shared=%v pass=%v", pre, c.n, c.workers, c.iv, c.shared, c.pass)
	sc := &Scenario{Name: name, Bound: c.bound}
	sc.Cfg = vshim.Config{Quantum: time.Second / 2, MaxIdle: 60, Classes: ptsRoot, Horizon: 16000, Thin: 6, ThinMod: 512}
	sc.Body = func(x *Exec) {
		rs := twoRoutes()
		var g [2]*gpsgen.Generator
		var r [2]*rec
		for s := range g {
			g[s] = newGen(c.iv[s], 1024, c.workers[s])
			r[s] = &rec{}
			r[s].hook(g[s])
			for i := 0; i < c.n[s]; i++ {
				d := newDev(fmt.Sprintf("g%d-%d", s, i), skipOff, static(1))
				if !c.shared {
					rs = twoRoutes()
				}
				must(d.AddRoute(rs...))
				must(g[s].Attach(d))
			}
		}
		moved := newDev("moved", skipOff, static(1))
		must(moved.AddRoute(twoRoutes()...))
		if c.pass {
			must(g[0].Attach(moved))
		}
		ends := [2]time.Duration{c.iv[0]*2 + c.iv[0]/2, 0}
		ends[1] = ends[0] + c.iv[1]*2
		x.Spawn("run0", r[0].run(g[0]))
		x.Spawn("run1", r[1].run(g[1]))
		done := [2]bool{}
		x.SpawnLazy("driver", func() {
			if c.pass {
				time.Sleep(c.iv[0] + c.iv[0]/2)
				vshim.HP(5)
				if err := g[1].Attach(moved); err == nil {
					x.Fail("attached twice", "a tracker attached to one generator was attached to another")
				}
				must(g[0].Detach("moved"))
				must(g[1].Attach(moved))
				time.Sleep(ends[0] - c.iv[0] - c.iv[0]/2)
			} else {
				time.Sleep(ends[0])
			}
			vshim.HP(1)
			g[0].Close()
			time.Sleep(ends[1] - ends[0])
			vshim.HP(2)
			r[0].lock()
			done[0] = r[0].runDone
			r[0].unlock()
			r[1].lock()
			done[1] = r[1].runDone
			r[1].unlock()
			g[1].Close()
		})
		if !x.Drive() {
			return
		}
		if !done[0] || done[1] {
			x.Fail("stop", "after the first generator was closed and two more intervals: stopped %v (the second still has to run)", done)
			return
		}
		count := [2]map[string]int{{}, {}}
		for s := range r {
			for _, p := range r[s].problems {
				x.Fail("late-callback", "%s", p)
			}
			recs, bad := r[s].decode()
			if bad != "" {
				x.Fail("packet", "generator %d: %s", s, bad)
				return
			}
			for _, d := range recs {
				count[s][d.Id]++
			}
		}
		for s := range r {
			for id, k := range count[s] {
				if id != "moved" && !strings.HasPrefix(id, fmt.Sprintf("g%d-", s)) {
					x.Fail("foreign", "generator %d delivered %d records of %s", s, k, id)
					return
				}
			}
			for i := 0; i < c.n[s]; i++ {
				id := fmt.Sprintf("g%d-%d", s, i)
				// every completed tick delivered it
				least := int(ends[s]/c.iv[s]) - 1
				if k := count[s][id]; k < least || k > int(ends[s]/c.iv[s])+1 {
					x.Fail("delivered", "generator %d delivered %d records of %s in %v at one every %v", s, k, id, ends[s], c.iv[s])
					return
				}
			}
		}
		if c.pass && (count[0]["moved"] == 0 || count[1]["moved"] == 0) {
			x.Fail("moved", "the tracker that moved from one generator to the other was delivered %d and %d times", count[0]["moved"], count[1]["moved"])
		}
		x.Label = fmt.Sprintf("%v", count)
	}
	return sc
}

func init() {
	register(&Check{ID: "C24", Level: "model_checking",
		Rule:        "a state is the pair of trackers after an interleaving of operations (merged on the memory of both); an execution is one schedule of two threads, or of two generators with their workers and a driver",
		Assumptions: []string{"random draws fixed", "edits of a route shared by trackers are not interference", "scheduling points at statements of the tracker, and of the curves and random sources in the two-thread scenarios; of the generator in the others", "race detection covers the explored schedules"},
		Jobs: func(tier string) []Job {
			var jobs []Job
			th := tier == "thorough"
			for _, k := range pairKinds() {
				jobs = append(jobs, twinsJob(k, pick(tier, 3, 4)))
			}
			kinds := pairKinds()
			steps := func(a, b pairOp) bool {
				return th || strings.HasPrefix(a.name, "Next") || a.name == "encode" || strings.HasPrefix(b.name, "Next") || b.name == "encode"
			}
			for _, k := range []int{0, 1, 5} {
				jobs = append(jobs, pairSched(kinds[k], Sched, 1, ptsDevice, steps)...)
			}
			for _, k := range kinds {
				jobs = append(jobs, pairSched(k, Race, pick(tier, 0, 1), ptsDevice, func(a, b pairOp) bool { return true })...)
			}
			jobs = append(jobs, pairSched(kinds[1], Sched, 1, ptsCurve|ptsRandom|ptsTypes|ptsNav, func(a, b pairOp) bool { return a.name == "Next(50)" || b.name == "Next(50)" })...)
			jobs = append(jobs, packageJobs(Sched, 1, ptsDevice|ptsRandom|ptsCurve)...)
			jobs = append(jobs, packageJobs(Race, pick(tier, 0, 1), ptsRandom|ptsCurve)...)
			I := 2 * time.Second
			for _, c := range []twoGenCfg{
				{n: [2]int{1, 1}, workers: [2]int{1, 1}, iv: [2]time.Duration{I, I}, bound: pick(tier, 1, 2), variant: Sched, shared: true},
				{n: [2]int{2, 3}, workers: [2]int{2, 1}, iv: [2]time.Duration{I, I * 3 / 2}, bound: 1, variant: Sched},
				{n: [2]int{0, 2}, workers: [2]int{1, 2}, iv: [2]time.Duration{I, I}, bound: 1, variant: Sched, shared: true},
				{n: [2]int{1, 1}, workers: [2]int{1, 1}, iv: [2]time.Duration{I, I}, bound: 1, variant: Sched, pass: true},
				{n: [2]int{2, 2}, workers: [2]int{1, 2}, iv: [2]time.Duration{I, I}, bound: pick(tier, 0, 1), variant: Race, shared: true},
				{n: [2]int{1, 2}, workers: [2]int{2, 2}, iv: [2]time.Duration{I, I * 3 / 2}, bound: pick(tier, 0, 1), variant: Race, pass: true},
			} {
				sc := twoGenScenario(c)
				jobs = append(jobs, Job{Name: sc.Name, Variant: c.variant, Shards: 1, Run: func(j *J) { j.Explore(sc) }})
			}
			return jobs
		}})
}
