package harness

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strings"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"github.com/mmadfox/go-gpsgen/vshim"
	"google.golang.org/protobuf/proto"
)

// sameRoutes compares two route lists through everything a caller can read.
func sameRoutes(a, b []*navigator.Route) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d routes, not %d", len(b), len(a))
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.ID() != y.ID() || x.Color() != y.Color() || x.Name().String() != y.Name().String() || x.Distance() != y.Distance() || x.NumTracks() != y.NumTracks() {
			return fmt.Sprintf("route %d is (%q %q %q %v %d tracks), not (%q %q %q %v %d tracks)", i, y.ID(), y.Color(), y.Name(), y.Distance(), y.NumTracks(),
				x.ID(), x.Color(), x.Name(), x.Distance(), x.NumTracks())
		}
		if !reflect.DeepEqual(jsonProps(x.Props()), jsonProps(y.Props())) {
			return fmt.Sprintf("route %d has properties %v, not %v", i, y.Props(), x.Props())
		}
		if vx, vy := x.Snapshot().Version, y.Snapshot().Version; vx != vy {
			return fmt.Sprintf("route %d has version %d, not %d", i, vy, vx)
		}
		for k := 0; k < x.NumTracks(); k++ {
			if m := sameTrack(x.TrackAt(k), y.TrackAt(k)); m != "" {
				return fmt.Sprintf("route %d track %d %s", i, k, m)
			}
		}
	}
	return ""
}

func sameTrack(x, y *navigator.Track) string {
	if x.ID() != y.ID() || x.Color() != y.Color() || x.Name().String() != y.Name().String() || x.Distance() != y.Distance() || x.NumSegments() != y.NumSegments() || x.IsClosed() != y.IsClosed() {
		return fmt.Sprintf("is (%q %q %q %v m, %d segments, closed %v), not (%q %q %q %v m, %d segments, closed %v)", y.ID(), y.Color(), y.Name(), y.Distance(), y.NumSegments(), y.IsClosed(),
			x.ID(), x.Color(), x.Name(), x.Distance(), x.NumSegments(), x.IsClosed())
	}
	if !reflect.DeepEqual(jsonProps(x.Props()), jsonProps(y.Props())) {
		return fmt.Sprintf("has properties %v, not %v", y.Props(), x.Props())
	}
	if vx, vy := x.Snapshot().Version, y.Snapshot().Version; vx != vy {
		return fmt.Sprintf("has version %d, not %d", vy, vx)
	}
	for i := 0; i < x.NumSegments(); i++ {
		p, q := x.SegmentAt(i), y.SegmentAt(i)
		if p.PointA() != q.PointA() || p.PointB() != q.PointB() || p.Distance() != q.Distance() || p.Bearing() != q.Bearing() || p.Index() != q.Index() || p.IsEmpty() != q.IsEmpty() {
			return fmt.Sprintf("segment %d is %v, not %v", i, q, p)
		}
		if p.DestinationTo(p.Distance()/3) != q.DestinationTo(q.Distance()/3) {
			return fmt.Sprintf("segment %d leads elsewhere", i)
		}
		// fields no accessor shows decide how a walk continues
		if canon(p.Snapshot()) != canon(q.Snapshot()) {
			return fmt.Sprintf("segment %d is %v, not %v", i, q.Snapshot(), p.Snapshot())
		}
	}
	return ""
}

func snapAll(rs []*navigator.Route) string {
	s := ""
	for _, r := range rs {
		s += canon(r.Snapshot()) + "\x00"
	}
	return s
}

// roundTripRoutes returns the decoded routes and what is wrong with them.
func roundTripRoutes(rs []*navigator.Route) ([]*navigator.Route, string) {
	before := snapAll(rs)
	b, err := gpsgen.EncodeRoutes(rs)
	if err != nil {
		return nil, fmt.Sprintf("EncodeRoutes: %v", err)
	}
	if snapAll(rs) != before {
		return nil, "encoding changed the routes"
	}
	keep := append([]byte(nil), b...)
	got, err := gpsgen.DecodeRoutes(b)
	if err != nil {
		return nil, fmt.Sprintf("DecodeRoutes: %v", err)
	}
	if !bytes.Equal(b, keep) {
		return nil, "decoding changed the bytes"
	}
	if m := sameRoutes(rs, got); m != "" {
		return nil, "decoded: " + m
	}
	if snapAll(got) != before {
		return nil, "decoded routes have another snapshot"
	}
	b2, err := gpsgen.EncodeRoutes(got)
	if err != nil || !bytes.Equal(b, b2) {
		return nil, fmt.Sprintf("encoding the decoded routes gives other bytes (%v)", err)
	}
	// the bytes given are not kept
	for i := range b {
		b[i] ^= 0x5a
	}
	if snapAll(got) != before {
		return nil, "decoded routes share the caller's bytes"
	}
	return got, ""
}

// ---- shapes ----

var jsonValues = []interface{}{"text", "", "ünïcode \u2028 <&> \"q\"", 1, -7, 2.5, 1e-9, 123456789012.0, true, false, nil,
	[]interface{}{1.0, "a", nil}, map[string]interface{}{"x": []interface{}{true}}, strings.Repeat("long ", 300), "12", "true"}

// trackAtoms lists tracks of every kind: shapes, closedness, labels, properties.
func trackAtoms() []*navigator.Track {
	mk := func(id, color string, pts ...geo.LatLonPoint) *navigator.Track {
		t, err := navigator.RestoreTrack(id, color, pts)
		must(err)
		return t
	}
	a, b, c := ll(10, 20), ll(10.001, 20.0005), ll(9.999, 20.002)
	plain := mk("t0", "#010203", a, b)
	named := mk("t1", "", a, b, c)
	must(named.ChangeName("a tráck"))
	closed := mk("t2", "#ffffff", a, b, c, a)
	closed.Props().Set("k", "v").Set("n", 3)
	zero := mk("t3", "#000000", a, a, b, b)
	must(zero.ChangeName(strings.Repeat("n", 256)))
	poles := mk(longID, "#0f0f0f", ll(90, 0), ll(-90, 0))
	anti := mk("t5", "#0f0f0f", ll(0, 179.9), ll(0, -179.9), ll(0, 180), ll(0, -180))
	must(anti.ChangeColor("#abcdef"))
	still := mk("t6", "#0f0f0f", c, c)
	still.Props()["deep"] = map[string]interface{}{"l": []interface{}{1.0, nil}}
	emptied := mk("t7", "#0f0f0f", c, b)
	emptied.Props().Set("x", 1)
	emptied.Props().Remove("x")
	free := mk("t8", "#ABCdef", b, c)    // a restored colour is any text
	back := mk("t9", "#0f0f0f", a, b, a) // there and back: closed with two segments
	return []*navigator.Track{plain, named, closed, zero, poles, anti, still, emptied, free, back}
}

// freeColors are colours a restored route may have.
var freeColors = []string{"#0a0b0c", "#ABCDEF", "", "red", "#abc"}

// eachRouteList enumerates lists of routes: every route of up to perRoute tracks
// dressed in three ways, every list of up to perList short routes, and every pair
// of the property values on routes and tracks.
func eachRouteList(name string, perRoute, perList int, values []interface{}, judge func(j *J, cs string, rs []*navigator.Route), finish func(j *J)) Job {
	return Job{Name: name, Variant: Plain, Shards: 8, Run: func(j *J) {
		n := len(trackAtoms())
		var combos [][]int
		var rec func(p []int, max int)
		rec = func(p []int, max int) {
			combos = append(combos, append([]int(nil), p...))
			if len(p) == max {
				return
			}
			for k := 0; k < n; k++ {
				rec(append(p, k), max)
			}
		}
		rec(nil, perRoute)
		build := func(id int, combo []int, dress int) *navigator.Route {
			at := trackAtoms()
			r := navigator.RestoreRoute(fmt.Sprintf("route-%d", id), freeColors[(id+len(combo))%len(freeColors)], nil)
			for _, k := range combo {
				r.AddTrack(at[k])
			}
			switch dress {
			case 1:
				must(r.ChangeName("route name"))
				r.Props().Set("kind", "bus").Set("stops", 12)
			case 2:
				must(r.ChangeColor(rgb(0.1, 0.2, 0.3)))
				_ = r.Props()
			}
			return r
		}
		for i, c := range combos {
			for dress := 0; dress < 3; dress++ {
				cs := fmt.Sprintf("route of tracks %v, dress %d", c, dress)
				if !j.Want(cs) || !j.Mine(i) {
					continue
				}
				j.Case(cs)
				j.State()
				j.Protect(name+"/panic", cs, func() {
					resetWorld()
					judge(j, cs, []*navigator.Route{build(0, c, dress)})
				})
			}
		}
		// lists of small routes
		var small [][]int
		for _, c := range combos {
			if len(c) <= 1 {
				small = append(small, c)
			}
		}
		var lists func(p []int)
		cnt := 0
		lists = func(p []int) {
			if len(p) > 1 {
				cnt++
				cs := fmt.Sprintf("list of routes %v", p)
				if j.Want(cs) && j.Mine(cnt) {
					j.Case(cs)
					j.State()
					j.Protect(name+"/panic", cs, func() {
						resetWorld()
						var rs []*navigator.Route
						for i, k := range p {
							rs = append(rs, build(i, small[k], (i+k)%3))
						}
						judge(j, cs, rs)
						if len(p) == perList {
							j.Sample(cs)
						}
					})
				}
			}
			if len(p) == perList {
				return
			}
			for k := range small {
				lists(append(append([]int(nil), p...), k))
			}
		}
		lists(nil)
		// every property value, alone and in pairs, on route and track
		for i, v := range values {
			for k, v2 := range values {
				cs := fmt.Sprintf("properties %v and %v", v, v2)
				if len(cs) > 200 {
					cs = cs[:200]
				}
				if !j.Want(cs) || !j.Mine(i) {
					continue
				}
				j.Case(cs)
				j.Protect(name+"/panic", cs, func() {
					resetWorld()
					r := build(0, []int{0, 2}, 0)
					r.Props().Set("a", v).Set("b key", v2)
					r.TrackAt(0).Props().Set("", v2)
					if k%2 == 0 {
						r.TrackAt(1).Props().Set("k", v)
					}
					judge(j, cs, []*navigator.Route{r})
				})
			}
		}
		if finish != nil {
			finish(j)
		}
	}}
}

func routeShapesJob(name string, perRoute, perList int) Job {
	judge := func(j *J, cs string, rs []*navigator.Route) {
		j.Eval()
		j.Distinct(snapAll(rs))
		got, m := roundTripRoutes(rs)
		if m != "" {
			j.Fail(name+"/routes", cs, "%s", m)
			return
		}
		// the copy is a copy
		before := snapAll(rs)
		for _, g := range got {
			g.Props().Set("only here", 1)
			must(g.ChangeName("only here"))
			for i := 0; i < g.NumTracks(); i++ {
				g.TrackAt(i).Props().Set("only here", 1)
				must(g.TrackAt(i).ChangeName("only here"))
			}
			g.AddTrack(trackAtoms()[0])
		}
		if snapAll(rs) != before {
			j.Fail(name+"/shared", cs, "editing the decoded routes changed the encoded ones")
		}
	}
	return eachRouteList(name, perRoute, perList, jsonValues, judge, func(j *J) {
		for _, e := range [][]*navigator.Route{nil, {}} {
			if b, err := gpsgen.EncodeRoutes(e); err == nil {
				j.Fail(name+"/empty", "empty", "encoding no routes gives %v and no error", b)
			}
		}
	})
}

// ---- editing histories, then the round trip; and the same edits continued on both ----

func routeHistoryJob(name string, ops []routeOp, depth, follow int) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		seen := map[string]bool{}
		frontier := [][]int{nil}
		build := func(p []int) *routeWorld {
			w := newRouteWorld()
			for _, k := range p {
				if m := ops[k].run(w); m != "" {
					return nil // C19 judges the edits themselves
				}
			}
			return w
		}
		hist := func(p []int) string {
			s := "route"
			for _, k := range p {
				s += "; " + ops[k].name
			}
			return s
		}
		// decoded makes the world whose route and attached tracks are decoded
		decoded := func(w *routeWorld) (*routeWorld, string) {
			got, m := roundTripRoutes([]*navigator.Route{w.r})
			if m != "" {
				return nil, m
			}
			d := &routeWorld{r: got[0], pool: append([]*navigator.Track(nil), w.pool...), pts: w.pts, m: w.m}
			for i, x := range w.m.tracks {
				d.pool[x] = got[0].TrackAt(i)
			}
			return d, ""
		}
		for dp := 0; dp <= depth && len(frontier) > 0; dp++ {
			var next [][]int
			for _, p := range frontier {
				if j.Expired(name) {
					return
				}
				cs := hist(p)
				if j.Replay != "" && !strings.HasPrefix(j.Replay, cs) {
					continue
				}
				j.Case(cs)
				j.Protect(name+"/panic", cs, func() {
					w := build(p)
					if w == nil {
						return
					}
					if k := w.key(); seen[k] {
						return
					} else {
						seen[k] = true
					}
					j.State()
					j.Trace()
					dup := map[int]bool{} // one track object twice in the route is two after decoding
					twice := false
					for _, x := range w.m.tracks {
						twice = twice || dup[x]
						dup[x] = true
					}
					d, m := decoded(w)
					if m == "" && !twice {
						m = d.diff()
					}
					if m != "" {
						j.Fail(name+"/decoded", cs, "%s: %s", cs, m)
						return
					}
					if twice {
						return
					}
					var rec func(q []int)
					rec = func(q []int) {
						if len(q) > 0 {
							j.Transition()
							j.Eval()
							d, m := decoded(build(p))
							if m == "" {
								for _, k := range q {
									if m = ops[k].run(d); m != "" {
										break
									}
								}
							}
							if m == "" {
								m = d.diff()
							}
							if m == "" {
								a := build(append(append([]int(nil), p...), q...))
								m = sameRoutes([]*navigator.Route{a.r}, []*navigator.Route{newVersions(d, a)})
							}
							if m != "" {
								j.Fail(name+"/continue", cs, "%s; saved and loaded%s: %s", cs, hist(q)[5:], m)
								return
							}
						}
						if len(q) < follow {
							for k := range ops {
								rec(append(append([]int(nil), q...), k))
							}
						}
					}
					rec(nil)
				})
				if dp < depth {
					for k := range ops {
						next = append(next, append(append([]int(nil), p...), k))
					}
				}
			}
			frontier = next
		}
		j.Note(name, fmt.Sprintf("depth %d, %d states", depth, len(seen)))
		j.Sample(name + ": every state saved, loaded and edited further")
	}}
}

// newVersions reads d's route again after a's comparison readings (looking a
// track up by its id counts as an edit) so that both were read alike.
func newVersions(d, a *routeWorld) *navigator.Route {
	a.diff()
	return d.r
}

// ---- the loaded routes step like the originals ----

type loadedPair struct{ w *World }

func onBoth(op SeqOp) SeqOp {
	run := op.Run
	op.Run = func(w *World) interface{} {
		n := vshim.UUIDCount()
		r1 := run(w)
		vshim.ResetUUID(n) // both draw the same identifiers
		r2 := run(w.Aux.(*loadedPair).w)
		return [2]interface{}{r1, r2}
	}
	return op
}

func judgeLoaded(c *Tx) {
	other := c.W.Aux.(*loadedPair).w
	r := c.Res.([2]interface{})
	if fmt.Sprint(r[0]) != fmt.Sprint(r[1]) {
		c.Fail("result", "with loaded routes it returns %v, with the originals %v", r[1], r[0])
	}
	if a, b := view(c.W.D), view(other.D); a != b {
		c.Fail("walk", "with the originals:\n%s\nwith loaded routes:\n%s", a, b)
		return
	}
	if a, b := canonDev(c.W.D), canonDev(other.D); a != b {
		c.Fail("walk", "with the originals:\n%v\nwith loaded routes:\n%v", c.W.D.Snapshot(), other.D.Snapshot())
	}
}

func loadedWorld(fn string, prep func([]*navigator.Route), opts ...devOpt) func() *World {
	return func() *World {
		f := fixtureByName(fn)
		mk := func(load bool) *World {
			vshim.ResetUUID(0)
			w := &World{D: newDev("dev", opts...)}
			w.Pool = f.build()
			if prep != nil {
				prep(w.Pool)
			}
			if load {
				got, m := roundTripRoutes(w.Pool)
				if m != "" {
					panic(m)
				}
				w.Pool = got
			}
			must(w.D.AddRoute(w.Pool...))
			return w
		}
		w := mk(false)
		w.Aux = &loadedPair{mk(true)}
		return w
	}
}

// ---- sensors ----

func sameSensor(a, b *gpsgen.Sensor) string {
	if a.ID() != b.ID() || a.Name() != b.Name() || a.Min() != b.Min() || a.Max() != b.Max() || a.ValueX() != b.ValueX() || a.ValueY() != b.ValueY() || a.String() != b.String() {
		return fmt.Sprintf("is (%s %s %v..%v %v/%v), not (%s %s %v..%v %v/%v)", b.ID(), b.Name(), b.Min(), b.Max(), b.ValueX(), b.ValueY(), a.ID(), a.Name(), a.Min(), a.Max(), a.ValueX(), a.ValueY())
	}
	return ""
}

func sensorsJob(name string, depth, follow int) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		type shape struct {
			min, max float64
			amp      int
			mode     types.SensorMode
		}
		var shapes []shape
		for _, r := range [][2]float64{{0, 1}, {-40, 40}, {5, 5}, {0, 0}, {10, -10}, {1e9, 1e9 + 1}, {-1e-3, 1e-3}} {
			for _, a := range []int{4, 5, 16, 512} {
				for _, m := range []types.SensorMode{types.WithSensorRandomMode, types.WithSensorStartMode, types.WithSensorEndMode, types.WithSensorStartMode | types.WithSensorEndMode, 0, 3} {
					shapes = append(shapes, shape{r[0], r[1], a, m})
				}
			}
		}
		type op struct {
			name string
			run  func(s *gpsgen.Sensor)
		}
		ops := []op{{"Shuffle", func(s *gpsgen.Sensor) { s.Shuffle() }}}
		for _, t := range []float64{0, 1, 0.5, 0.123} {
			t := t
			ops = append(ops, op{fmt.Sprintf("Next(%v)", t), func(s *gpsgen.Sensor) { s.Next(t) }})
		}
		grid := []float64{0, 1e-9, 0.1, 1.0 / 3, 0.5, 0.77, 1 - 1e-9, 1}
		mk := func(sh shape, i int, p []int) *gpsgen.Sensor {
			s, err := types.RestoreSensor(fmt.Sprintf("00000000-0000-4000-9000-%012d", i), fmt.Sprintf("sensor %d", i), sh.min, sh.max, sh.amp, sh.mode)
			must(err)
			for _, k := range p {
				ops[k].run(s)
			}
			return s
		}
		snap := func(ss []*gpsgen.Sensor) string {
			x := ""
			for _, s := range ss {
				x += canon(s.Snapshot()) + "\x00"
			}
			return x
		}
		judge := func(cs string, mkAll func() []*gpsgen.Sensor, cycle []float64, cont func(s *gpsgen.Sensor)) {
			j.Case(cs)
			j.Eval()
			j.Protect(name+"/panic", cs, func() {
				resetWorld()
				vshim.SetCycle(cycle...)
				ss := mkAll()
				before := snap(ss)
				j.Distinct(before)
				b, err := gpsgen.EncodeSensors(ss)
				if err != nil {
					j.Fail(name+"/encode", cs, "%s: %v", cs, err)
					return
				}
				got, err := gpsgen.DecodeSensors(b)
				if err != nil || len(got) != len(ss) {
					j.Fail(name+"/decode", cs, "%s: %d sensors, %v", cs, len(got), err)
					return
				}
				b2, err := gpsgen.EncodeSensors(got)
				if err != nil || !bytes.Equal(b, b2) {
					j.Fail(name+"/again", cs, "%s: encoding the decoded sensors gives other bytes (%v)", cs, err)
				}
				if snap(ss) != before {
					j.Fail(name+"/disturb", cs, "%s: encoding changed the sensors", cs)
				}
				for i := range ss {
					if m := sameSensor(ss[i], got[i]); m != "" {
						j.Fail(name+"/sensor", cs, "%s: sensor %d %s", cs, i, m)
						return
					}
				}
				if cont == nil {
					return
				}
				for i := range ss {
					vshim.SetCycle(0.3, 0.9, 0.1)
					cont(ss[i])
					vshim.SetCycle(0.3, 0.9, 0.1)
					cont(got[i])
					j.Transition()
					if m := sameSensor(ss[i], got[i]); m != "" {
						j.Fail(name+"/future", cs, "%s: later sensor %d %s", cs, i, m)
						return
					}
					for _, t := range grid {
						ss[i].Next(t)
						got[i].Next(t)
						if m := sameSensor(ss[i], got[i]); m != "" || math.IsNaN(ss[i].ValueY()) {
							j.Fail(name+"/future", cs, "%s: at %v sensor %d %s", cs, t, i, m)
							return
						}
					}
				}
			})
		}
		var hists [][]int
		var rec func(p []int)
		rec = func(p []int) {
			hists = append(hists, append([]int(nil), p...))
			if len(p) < depth {
				for k := range ops {
					rec(append(append([]int(nil), p...), k))
				}
			}
		}
		rec(nil)
		cycles := [][]float64{{0.5}, {0, 0.99, 0.4}, {0}}
		for si, sh := range shapes {
			if !j.Mine(si) {
				continue
			}
			for hi, h := range hists {
				if j.Expired(name) {
					return
				}
				j.State()
				cy := cycles[(si+hi)%len(cycles)]
				ks := len(ops)
				if follow == 0 {
					ks = 0
				}
				for k := -1; k < ks; k++ {
					cs := fmt.Sprintf("sensor %+v history %v then %d draws %v", sh, h, k, cy)
					if !j.Want(cs) {
						continue
					}
					cont := func(s *gpsgen.Sensor) {}
					if k >= 0 {
						cont = ops[k].run
					}
					judge(cs, func() []*gpsgen.Sensor { return []*gpsgen.Sensor{mk(sh, 1, h)} }, cy, cont)
				}
			}
		}
		// lists, in order
		pool := []shape{shapes[0], shapes[7], shapes[30], shapes[50]}
		var list func(p []int)
		list = func(p []int) {
			if len(p) > 1 && j.Shard == 0 {
				for _, sameID := range []bool{false, true} {
					sameID := sameID
					cs := fmt.Sprintf("sensors %v, one id %v", p, sameID)
					if j.Want(cs) {
						judge(cs, func() []*gpsgen.Sensor {
							var ss []*gpsgen.Sensor
							for i, k := range p {
								if sameID {
									i = 0
								}
								ss = append(ss, mk(pool[k], i, []int{k, i}[:1+i%2]))
							}
							return ss
						}, []float64{0.2, 0.8}, func(s *gpsgen.Sensor) { s.Next(0.6) })
					}
				}
			}
			if len(p) < 3 {
				for k := range pool {
					list(append(append([]int(nil), p...), k))
				}
			}
		}
		list(nil)
		if _, err := gpsgen.EncodeSensors(nil); err == nil {
			j.Fail(name+"/empty", "empty", "encoding no sensors is not an error")
		}
		j.Sample(fmt.Sprintf("%d shapes, %d histories", len(shapes), len(hists)))
	}}
}

// packets decode to what was encoded
func packetJob(name string) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		for n := 0; n <= 3; n++ {
			for _, fn := range []string{"two", "none", "trackless"} {
				cs := fmt.Sprintf("packet of %d trackers on %s", n, fn)
				if !j.Want(cs) {
					continue
				}
				j.Case(cs)
				j.Eval()
				j.State()
				resetWorld()
				p := &pb.Packet{Timestamp: int64(n) * 1e15}
				for i := 0; i < n; i++ {
					w := withSensors(devWorld(fixtureByName(fn), fn != "none", skipOff), i)()
					w.D.Next(2)
					p.Devices = append(p.Devices, w.D.State())
				}
				b, err := proto.Marshal(p)
				must(err)
				got, err := gpsgen.PacketFromBytes(b)
				if len(b) == 0 {
					if err == nil {
						j.Fail(name+"/empty", cs, "an empty packet decodes")
					}
					continue
				}
				if err != nil || !proto.Equal(p, got) {
					j.Fail(name+"/packet", cs, "%s decodes as %v, %v", cs, got, err)
				}
				j.Distinct(cs)
			}
		}
	}}
}

// ---- restoring onto existing objects replaces everything ----

func restoreOntoJob(name string, perRoute int) Job {
	return Job{Name: name, Variant: Plain, Shards: 8, Run: func(j *J) {
		n := len(trackAtoms())
		var combos [][]int
		var rec func(p []int)
		rec = func(p []int) {
			combos = append(combos, append([]int(nil), p...))
			if len(p) == perRoute {
				return
			}
			for k := 0; k < n; k++ {
				rec(append(p, k))
			}
		}
		rec(nil)
		dress := func(r *navigator.Route, k int) *navigator.Route {
			switch k {
			case 1:
				must(r.ChangeName("route name"))
				r.Props().Set("kind", "bus").Set("stops", 12)
			case 2:
				must(r.ChangeColor(rgb(0.1, 0.2, 0.3)))
				must(r.ChangeName("другое имя"))
				_ = r.Props()
			}
			return r
		}
		build := func(id int, c []int, k int) *navigator.Route {
			at := trackAtoms()
			r := navigator.RestoreRoute(fmt.Sprintf("route-%d", id), freeColors[(id+len(c))%len(freeColors)], nil)
			for _, x := range c {
				r.AddTrack(at[x])
			}
			return dress(r, k)
		}
		// what is overwritten: nothing, bare routes, fully dressed ones, one restored before
		targets := []struct {
			name string
			mk   func() *navigator.Route
		}{
			{"a zero route", func() *navigator.Route { return new(navigator.Route) }},
			{"a new route", func() *navigator.Route { return navigator.NewRoute() }},
			{"a bare route", func() *navigator.Route { return build(7, nil, 0) }},
			{"a route with name and properties", func() *navigator.Route { return build(8, []int{1, 2}, 1) }},
			{"a coloured route", func() *navigator.Route { return build(9, []int{9, 3, 0}, 2) }},
			{"a restored route", func() *navigator.Route {
				r := new(navigator.Route)
				must(r.RouteFromSnapshot(build(8, []int{2, 7}, 1).Snapshot()))
				return r
			}},
		}
		// damage that a restore has to refuse, leaving the route as it was
		damage := []struct {
			name string
			f    func(s *navigator.RouteSnapshot) bool
		}{
			{"broken properties", func(s *navigator.RouteSnapshot) bool { s.Props = []byte("{"); return true }},
			{"properties that are a list", func(s *navigator.RouteSnapshot) bool { s.Props = []byte("[1]"); return true }},
			{"name too long", func(s *navigator.RouteSnapshot) bool { s.Name = strings.Repeat("n", 257); return true }},
			{"an empty track", func(s *navigator.RouteSnapshot) bool { s.Tracks = append(s.Tracks, nil); return true }},
			{"broken properties of the last track", func(s *navigator.RouteSnapshot) bool {
				if len(s.Tracks) == 0 {
					return false
				}
				s.Tracks[len(s.Tracks)-1].Props = []byte("}")
				return true
			}},
			{"a missing end point", func(s *navigator.RouteSnapshot) bool {
				if len(s.Tracks) == 0 {
					return false
				}
				t := s.Tracks[len(s.Tracks)-1]
				t.Segmenets[len(t.Segmenets)-1].PointB = nil
				return true
			}},
		}
		for ci, c := range combos {
			if !j.Mine(ci) {
				continue
			}
			for k := 0; k < 3; k++ {
				for _, tg := range targets {
					cs := fmt.Sprintf("route of tracks %v, dress %d, restored onto %s", c, k, tg.name)
					if !j.Want(cs) {
						continue
					}
					j.Case(cs)
					j.State()
					j.Eval()
					j.Protect(name+"/panic", cs, func() {
						resetWorld()
						src := build(1, c, k)
						before := canon(src.Snapshot())
						snap := src.Snapshot()
						dst := tg.mk()
						if err := dst.RouteFromSnapshot(snap); err != nil {
							j.Fail(name+"/refused", cs, "%s: %v", cs, err)
							return
						}
						if m := sameRoutes([]*navigator.Route{src}, []*navigator.Route{dst}); m != "" {
							j.Fail(name+"/route", cs, "%s: %s", cs, m)
							return
						}
						j.Distinct(before)
						if canon(dst.Snapshot()) != before {
							j.Fail(name+"/route", cs, "%s: the snapshot differs", cs)
						}
						if err := dst.RouteFromSnapshot(nil); err != nil || canon(dst.Snapshot()) != before {
							j.Fail(name+"/nil", cs, "%s: then restoring from nothing changed it (%v)", cs, err)
						}
						for _, d := range damage {
							s := src.Snapshot()
							if !d.f(s) {
								continue
							}
							j.Transition()
							if err := dst.RouteFromSnapshot(s); err == nil {
								j.Fail(name+"/damage", cs, "%s: %s is accepted", cs, d.name)
							} else if canon(dst.Snapshot()) != before {
								j.Fail(name+"/damage", cs, "%s: refusing %s changed the route", cs, d.name)
							}
							other := tg.mk()
							was := canon(other.Snapshot())
							if err := other.RouteFromSnapshot(s); err == nil || canon(other.Snapshot()) != was {
								j.Fail(name+"/damage", cs, "refusing %s changed %s (%v)", d.name, tg.name, err)
							}
						}
						// neither the snapshot nor the routes share anything
						snap.Name, snap.Id, snap.Color = "x", "x", "x"
						for _, t := range snap.Tracks {
							t.Name, t.Id = "x", "x"
							for _, sg := range t.Segmenets {
								sg.PointA.Lon, sg.Distance = 1, 1
							}
						}
						for i := range snap.Props {
							snap.Props[i] = 'x'
						}
						dst.Props().Set("only here", 1)
						for i := 0; i < dst.NumTracks(); i++ {
							dst.TrackAt(i).Props().Set("only here", 1)
							must(dst.TrackAt(i).ChangeName("only here"))
						}
						must(dst.ChangeName("only here"))
						if canon(src.Snapshot()) != before {
							j.Fail(name+"/shared", cs, "%s: editing the restored route or the snapshot changed the original", cs)
						}
						for i := 0; i < dst.NumTracks(); i++ {
							if dst.TrackAt(i).ID() == "x" || dst.TrackAt(i).SegmentAt(0) != src.TrackAt(i).SegmentAt(0) {
								j.Fail(name+"/shared", cs, "%s: changing the snapshot afterwards changed the restored route", cs)
							}
						}
					})
				}
			}
			if len(c) > 2 {
				continue
			}
			// tracks onto tracks: the last of the combination onto the first
			if len(c) > 0 {
				cs := fmt.Sprintf("track %d restored onto track %d", c[len(c)-1], c[0])
				if j.Want(cs) {
					j.Case(cs)
					j.Eval()
					j.Protect(name+"/panic", cs, func() {
						resetWorld()
						src, dst := trackAtoms()[c[len(c)-1]], trackAtoms()[c[0]]
						if len(c) == 1 {
							dst = new(navigator.Track)
						}
						before := canon(src.Snapshot())
						navigator.TrackFromSnapshot(dst, src.Snapshot())
						if m := sameTrack(src, dst); m != "" {
							j.Fail(name+"/track", cs, "%s: it %s", cs, m)
						} else if canon(dst.Snapshot()) != before {
							j.Fail(name+"/track", cs, "%s: the snapshot differs", cs)
						}
						navigator.TrackFromSnapshot(dst, nil)
						navigator.TrackFromSnapshot(nil, src.Snapshot())
						if canon(dst.Snapshot()) != before {
							j.Fail(name+"/nil", cs, "%s: then restoring from nothing changed it", cs)
						}
						for i := 0; i < src.NumSegments(); i++ {
							j.Transition()
							s := src.SegmentAt(i)
							if g := navigator.SegmentFromSnapshot(s.Snapshot()); g != s {
								j.Fail(name+"/segment", cs, "segment %d comes back as %v, not %v", i, g, s)
							}
						}
						dst.Props().Set("only here", 1)
						must(dst.ChangeName("only here"))
						if canon(src.Snapshot()) != before {
							j.Fail(name+"/shared", cs, "%s: editing the restored track changed the original", cs)
						}
					})
				}
			}
		}
		if j.Shard == 0 && j.Replay == "" {
			if s := navigator.SegmentFromSnapshot(nil); !s.IsEmpty() {
				j.Fail(name+"/nil", "nil", "no snapshot gives segment %v", s)
			}
		}
		j.Sample(fmt.Sprintf("%d routes onto %d others", len(combos)*3, len(targets)))
	}}
}

// sensors restored onto sensors
func sensorOntoJob(name string) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		mk := func(i int) *gpsgen.Sensor {
			r := [][2]float64{{0, 1}, {-40, 40}, {5, 5}, {10, -10}}[i%4]
			s, err := types.RestoreSensor(fmt.Sprintf("00000000-0000-4000-9000-%012d", i), fmt.Sprintf("sensor %d", i), r[0], r[1], []int{4, 7, 32}[i%3], types.SensorMode(i%5))
			must(err)
			for k := 0; k < i%3; k++ {
				s.Next(float64(k+1) / 4)
			}
			return s
		}
		for a := 0; a < 24; a++ {
			for b := -1; b < 24; b++ {
				cs := fmt.Sprintf("sensor %d restored onto sensor %d", a, b)
				if !j.Want(cs) {
					continue
				}
				j.Case(cs)
				j.State()
				j.Eval()
				j.Protect(name+"/panic", cs, func() {
					resetWorld()
					vshim.SetCycle(0.1, 0.8, 0.45)
					src, dst := mk(a), new(gpsgen.Sensor)
					if b >= 0 {
						dst = mk(b)
					}
					before := canon(src.Snapshot())
					snap := src.Snapshot()
					dst.FromSnapshot(snap)
					j.Distinct(before)
					if m := sameSensor(src, dst); m != "" || canon(dst.Snapshot()) != before {
						j.Fail(name+"/sensor", cs, "%s: it %s", cs, m)
						return
					}
					for i, t := range []float64{0, 0.3, 1, 0.77} {
						j.Transition()
						src.Next(t)
						dst.Next(t)
						if m := sameSensor(src, dst); m != "" {
							j.Fail(name+"/future", cs, "%s: later it %s", cs, m)
							return
						}
						if i == 1 { // no points shared with the snapshot
							for _, p := range snap.Gen.Points {
								p.Vp.Y, p.Cp.Y = 1e6, 1e6
							}
						}
					}
					before = canon(src.Snapshot())
					dst.Shuffle()
					dst.Next(0.5)
					if canon(src.Snapshot()) != before {
						j.Fail(name+"/shared", cs, "%s: using the restored sensor changed the original", cs)
					}
				})
			}
		}
		j.Sample("24 sensors onto each other")
	}}
}

func init() {
	register(&Check{ID: "C14", Level: "model_checking",
		Rule:        "a state is a distinct route list, editing history of a route, pair of trackers on original and loaded routes, or sensor with a history; each is encoded, decoded, compared, encoded again and continued in lockstep",
		Assumptions: []string{"properties are JSON values; whole numbers below 2^53", "names are valid UTF-8"},
		Jobs: func(tier string) []Job {
			var jobs []Job
			n := pick(tier, 8, 8)
			for i := 0; i < 1; i++ {
				jb := routeShapesJob("C14 route shapes", pick(tier, 4, 5), pick(tier, 3, 4))
				jb.Shards = n
				jobs = append(jobs, jb)
			}
			var ops []routeOp
			for _, o := range routeOps() {
				if strings.Contains(o.name, "RemoveTrack(\"unknown") || strings.Contains(o.name, "chars") && !strings.Contains(o.name, "(3 ") && !strings.Contains(o.name, "(2 ") || o.name == "read everything" ||
					strings.Contains(o.name, "NaN") || strings.HasSuffix(o.name, "x\")") {
					continue
				}
				ops = append(ops, o)
			}
			jobs = append(jobs, routeHistoryJob("C14 edited routes", ops, pick(tier, 4, 5), 1))
			jobs = append(jobs, routeHistoryJob("C14 edited routes, longer continuation", ops, pick(tier, 3, 3), 2))
			curved := func(o *gpsgen.DeviceOptions) { o.Speed.Min, o.Speed.Max, o.Speed.Amplitude = 2, 8, 5 }
			preps := []struct {
				name string
				f    func([]*navigator.Route)
			}{
				{"as built", nil},
				{"edited", func(rs []*navigator.Route) {
					rs[0].AddTrack(lineTrack(44, 55, 9, 4))
					if rs[0].NumTracks() > 2 {
						rs[0].RemoveTrack(rs[0].TrackAt(0).ID())
					}
					must(rs[0].ChangeName("edited"))
					rs[0].Props().Set("a", 1.5)
				}},
			}
			for _, fx := range []string{"one", "two", "three", "zero-segments", "trackless", "tiny", "squares", "antimeridian"} {
				for _, p := range preps {
					for vi, opts := range [][]devOpt{{curved, offline(1, 4)}, {static(3), skipOff}} {
						last := len(fixtureByName(fx).routes) - 1
						base := []SeqOp{opStep(1), opStep(2.5), opStep(40), opMoveSeg(0, 0, 1), opMoveRoute(last), opNextRoute(), opDestFrac(0.6, 0), opResetNav(), opRemoveTrack(last, 0), opDirectAdd(0, 9, 3), opOffline()}
						var both []SeqOp
						for _, o := range base {
							both = append(both, onBoth(o))
						}
						s := &Seq{Name: fmt.Sprintf("C14 walk %s %s %d", fx, p.name, vi), Draw: []float64{0.4}, New: loadedWorld(fx, p.f, opts...), Ops: both, Depth: pick(tier, 4, 5),
							Canon: func(w *World) string {
								return canonDev(w.D) + canonPool(w) + canonDev(w.Aux.(*loadedPair).w.D) + canonPool(w.Aux.(*loadedPair).w)
							}, Check: judgeLoaded}
						jobs = append(jobs, Job{Name: s.Name, Variant: Plain, Run: func(j *J) { j.BFS(s) }})
					}
				}
			}
			sj := sensorsJob("C14 sensors", pick(tier, 2, 3), 1)
			sj.Shards = n
			jobs = append(jobs, sj, packetJob("C14 packets"), largeListsJob("C14 large lists", tier, func(j *J, cs string, rs []*navigator.Route) {
				j.Eval()
				if _, m := roundTripRoutes(rs); m != "" {
					j.Fail("C14 large lists/routes", cs, "%s", m)
				}
			}), restoreOntoJob("C14 restore onto", pick(tier, 2, 3)), sensorOntoJob("C14 sensors onto sensors"))
			return jobs
		}})
}
