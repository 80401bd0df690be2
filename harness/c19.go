package harness

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/lucasb-eyer/go-colorful"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/properties"
)

// ---- points of a track ----

// trackDiff compares a track with the points it was made from.
func trackDiff(t *navigator.Track, pts []geo.LatLonPoint) string {
	if t.NumSegments() != len(pts)-1 {
		return fmt.Sprintf("%d segments for %d points", t.NumSegments(), len(pts))
	}
	sum := 0.0
	for i := 0; i < t.NumSegments(); i++ {
		g := t.SegmentAt(i)
		if g.PointA() != pts[i] || g.PointB() != pts[i+1] {
			return fmt.Sprintf("segment %d goes from %v to %v, the points are %v and %v", i, g.PointA(), g.PointB(), pts[i], pts[i+1])
		}
		if g.Index() != i {
			return fmt.Sprintf("segment %d has index %d", i, g.Index())
		}
		l := dist(pts[i], pts[i+1])
		if math.Abs(l-g.Distance()) > 1e-6+1e-9*l {
			return fmt.Sprintf("segment %d is %v m long, its points are %v m apart", i, g.Distance(), l)
		}
		if g.IsEmpty() != (g.Distance() == 0) {
			return fmt.Sprintf("segment %d of %v m: IsEmpty is %v", i, g.Distance(), g.IsEmpty())
		}
		if !(g.Bearing() >= 0 && g.Bearing() < 360) {
			return fmt.Sprintf("segment %d has bearing %v", i, g.Bearing())
		}
		if g.DestinationTo(0) != g.PointA() && !near(g.DestinationTo(0), g.PointA(), 1e-6) {
			return fmt.Sprintf("segment %d: 0 m along it is %v", i, g.DestinationTo(0))
		}
		if l > 0 && l < 1e6 && !near(g.DestinationTo(g.Distance()), g.PointB(), 1e-3) {
			return fmt.Sprintf("segment %d: its length along it is %v, not %v", i, g.DestinationTo(g.Distance()), g.PointB())
		}
		sum += g.Distance()
	}
	if !eq(sum, t.Distance()) {
		return fmt.Sprintf("track of %v m, its segments sum to %v", t.Distance(), sum)
	}
	if want := len(pts) >= 3 && pts[0] == pts[len(pts)-1]; t.IsClosed() != want {
		return fmt.Sprintf("IsClosed is %v", t.IsClosed())
	}
	for _, i := range []int{-1, t.NumSegments(), t.NumSegments() + 5} {
		if g := t.SegmentAt(i); g != (navigator.Segment{}) {
			return fmt.Sprintf("SegmentAt(%d) is %v", i, g)
		}
	}
	return ""
}

func pointsJob(name string, alphabet []geo.LatLonPoint, maxLen int) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		var pts []geo.LatLonPoint
		var rec func()
		judge := func() {
			cs := fmt.Sprintf("points %v", pts)
			if !j.Want(cs) {
				return
			}
			j.Case(cs)
			j.Eval()
			if !j.Distinct(cs) {
				return
			}
			j.State()
			j.Protect(name+"/panic", cs, func() {
				resetWorld()
				given := append([]geo.LatLonPoint(nil), pts...)
				t, err := navigator.NewTrack(given)
				r, rerr := navigator.RestoreTrack("tid", "#010203", given)
				if len(pts) < 2 {
					if err == nil || rerr == nil || t != nil || r != nil {
						j.Fail(name+"/short", cs, "a track of %d points was made", len(pts))
					}
					return
				}
				if err != nil || rerr != nil {
					j.Fail(name+"/refused", cs, "error %v %v", err, rerr)
					return
				}
				if !reflect.DeepEqual(given, pts) {
					j.Fail(name+"/input", cs, "making a track changed the points given to %v", given)
				}
				for i := range given {
					given[i] = ll(-1, -1) // the caller's slice is the caller's
				}
				for _, x := range []*navigator.Track{t, r} {
					if m := trackDiff(x, pts); m != "" {
						j.Fail(name+"/track", cs, "%s: %s", cs, m)
					}
				}
				if r.ID() != "tid" || r.Color() != "#010203" || t.ID() == "" {
					j.Fail(name+"/ident", cs, "ids %q %q colour %q", r.ID(), t.ID(), r.Color())
				}
				// removal and addition keep the sums
				rt := navigator.NewRoute()
				rt.AddTrack(t).AddTrack(r).AddTrack(t)
				if !eq(rt.Distance(), 2*t.Distance()+r.Distance()) {
					j.Fail(name+"/route", cs, "route of %v m with tracks of %v, %v, %v", rt.Distance(), t.Distance(), r.Distance(), t.Distance())
				}
			})
			if len(pts) == maxLen {
				j.Sample(cs)
			}
		}
		rec = func() {
			judge()
			if len(pts) == maxLen {
				return
			}
			for _, p := range alphabet {
				pts = append(pts, p)
				rec()
				pts = pts[:len(pts)-1]
			}
		}
		rec()
	}}
}

// ---- editing histories of a route and its tracks ----

type routeModel struct {
	tracks []int // pool positions
	name   string
	color  string
	props  map[string]interface{}
	tname  [4]string
	tcolor [4]string
	tprops [4]map[string]interface{}
	ver    int // successful edits of the route
	tver   [4]int
}

type routeWorld struct {
	r    *navigator.Route
	pool []*navigator.Track
	pts  [][]geo.LatLonPoint
	m    *routeModel
}

func newRouteWorld() *routeWorld {
	resetWorld()
	w := &routeWorld{r: navigator.RestoreRoute("the route", "#0a0b0c", nil), m: &routeModel{color: "#0a0b0c", props: map[string]interface{}{}}}
	for i, lens := range []trackSpec{{10, 5}, {7}, {3, 3, 3}, {20}} {
		id := fmt.Sprintf("track-%d", i)
		switch i {
		case 1:
			id = "t"
		case 2:
			id = longID
		}
		pts := fixture{}.points(0, i, lens)
		t, err := navigator.RestoreTrack(id, "#010203", pts)
		must(err)
		w.pool, w.pts = append(w.pool, t), append(w.pts, pts)
		w.m.tcolor[i] = "#010203"
		w.m.tprops[i] = map[string]interface{}{}
	}
	return w
}

type routeOp struct {
	name string
	run  func(w *routeWorld) string
}

func (w *routeWorld) id(x int) string { return w.pool[x].ID() }

func routeOps() []routeOp {
	var ops []routeOp
	add := func(n string, f func(w *routeWorld) string) { ops = append(ops, routeOp{n, f}) }
	for i := 0; i < 3; i++ {
		i := i
		add(fmt.Sprintf("AddTrack(%d)", i), func(w *routeWorld) string {
			w.m.tracks = append(w.m.tracks, i)
			w.m.ver++
			if w.r.AddTrack(w.pool[i]) != w.r {
				return "AddTrack returned another route"
			}
			return ""
		})
	}
	add("AddTrack(nil)", func(w *routeWorld) string {
		if w.r.AddTrack(nil) != w.r {
			return "AddTrack(nil) returned another route"
		}
		return ""
	})
	for _, id := range []string{"track-0", "t", longID, "", "unknown", longID + "x", "tt"} {
		id := id
		add(fmt.Sprintf("RemoveTrack(%q)", id), func(w *routeWorld) string {
			var ok bool
			w.m.tracks, ok = drop(w.m.tracks, func(x int) bool { return w.id(x) == id })
			if ok {
				w.m.ver++
			}
			if got := w.r.RemoveTrack(id); got != ok {
				return fmt.Sprintf("RemoveTrack(%q) returned %v", id, got)
			}
			return ""
		})
	}
	for _, n := range []string{"abc", strings.Repeat("n", 256), "ab", "", strings.Repeat("n", 257)} {
		n, valid := n, len(n) >= 3 && len(n) <= 256
		add(fmt.Sprintf("ChangeName(%d chars)", len(n)), func(w *routeWorld) string {
			if valid {
				w.m.name = n
				w.m.ver++
			}
			if err := w.r.ChangeName(n); (err == nil) != valid {
				return fmt.Sprintf("ChangeName of %d characters: %v", len(n), err)
			}
			return ""
		})
		add(fmt.Sprintf("track 1 ChangeName(%d chars)", len(n)), func(w *routeWorld) string {
			if valid {
				w.m.tname[1] = n
				w.m.tver[1]++
			}
			if err := w.pool[1].ChangeName(n); (err == nil) != valid {
				return fmt.Sprintf("track ChangeName of %d characters: %v", len(n), err)
			}
			return ""
		})
	}
	for _, c := range []struct {
		c   colorful.Color
		hex string
	}{{rgb(1, 0, 1), "#ff00ff"}, {rgb(0, 0, 0), "#000000"}, {rgb(1.5, 0, 0), ""}, {rgb(0, -1, 0), ""}, {rgb(0, 0, math.NaN()), ""}} {
		c := c
		add(fmt.Sprintf("ChangeColor(%v)", c.c), func(w *routeWorld) string {
			if c.hex != "" {
				w.m.color = c.hex
				w.m.ver++
			}
			if err := w.r.ChangeColor(c.c); (err == nil) != (c.hex != "") {
				return fmt.Sprintf("ChangeColor(%v): %v", c.c, err)
			}
			return ""
		})
	}
	for _, c := range []struct{ in, hex string }{{"#ABCDEF", "#abcdef"}, {"#0f0", "#00ff00"}, {"red", ""}, {"", ""}, {"#zz0000", ""}, {"123", ""}, {"0a0b0c", ""}} {
		c := c
		add(fmt.Sprintf("track 0 ChangeColor(%q)", c.in), func(w *routeWorld) string {
			if c.hex != "" {
				w.m.tcolor[0] = c.hex
				w.m.tver[0]++
			}
			if err := w.pool[0].ChangeColor(c.in); (err == nil) != (c.hex != "") {
				return fmt.Sprintf("ChangeColor(%q): %v", c.in, err)
			}
			return ""
		})
	}
	add("Props.Set(k,1.5)", func(w *routeWorld) string { w.m.props["k"] = 1.5; w.r.Props().Set("k", 1.5); return "" })
	add("Props.Remove(k)", func(w *routeWorld) string { delete(w.m.props, "k"); w.r.Props().Remove("k"); return "" })
	add("Props.Merge(track 1)", func(w *routeWorld) string {
		for k, v := range w.m.tprops[1] {
			w.m.props[k] = v
		}
		w.r.Props().Merge(w.pool[1].Props())
		return ""
	})
	add("track 1 Props.Set(j,x)", func(w *routeWorld) string {
		w.m.tprops[1]["j"] = "x"
		w.pool[1].Props().Set("j", "x")
		return ""
	})
	add("read everything", func(w *routeWorld) string { return "" }) // the readings of the comparison once more
	return ops
}

func (w *routeWorld) key() string {
	return fmt.Sprint(*w.m) + canon(w.r.Snapshot()) + heapKey(w.r, w.pool)
}

// diff compares everything readable with the model.
func (w *routeWorld) diff() string {
	r, m := w.r, w.m
	if r.ID() != "the route" || r.Name().String() != m.name || r.Name().IsEmpty() != (m.name == "") || r.Color() != m.color {
		return fmt.Sprintf("id %q, name of %d characters, colour %s; expected %d characters, %s", r.ID(), len(r.Name().String()), r.Color(), len(m.name), m.color)
	}
	if r.NumTracks() != len(m.tracks) {
		return fmt.Sprintf("%d tracks, expected %v", r.NumTracks(), m.tracks)
	}
	sum := 0.0
	for i, x := range m.tracks {
		if r.TrackAt(i) != w.pool[x] {
			return fmt.Sprintf("TrackAt(%d) is not track %d", i, x)
		}
		sum += w.pool[x].Distance()
	}
	if !eq(sum, r.Distance()) {
		return fmt.Sprintf("route of %v m, its tracks sum to %v", r.Distance(), sum)
	}
	for _, i := range []int{-1, len(m.tracks), len(m.tracks) + 1} {
		if r.TrackAt(i) != nil {
			return fmt.Sprintf("TrackAt(%d) is a track", i)
		}
	}
	for stop := 0; stop <= len(m.tracks); stop++ {
		k, bad := 0, ""
		r.EachTrack(func(i int, t *navigator.Track) bool {
			if i != k || i >= len(m.tracks) || t != w.pool[m.tracks[i]] {
				bad = fmt.Sprintf("EachTrack gives another track at call %d, index %d", k, i)
			}
			k++
			return k <= stop
		})
		want := min(stop+1, len(m.tracks))
		if bad == "" && k != want {
			bad = fmt.Sprintf("EachTrack, stopped after %d, made %d calls", stop+1, k)
		}
		if bad != "" {
			return bad
		}
	}
	for x := range w.pool {
		var want *navigator.Track
		if has(m.tracks, func(y int) bool { return w.id(y) == w.id(x) }) {
			want = w.pool[x]
		}
		got, err := r.TrackByID(w.id(x))
		if got != want || (err != nil) != (want == nil) {
			return fmt.Sprintf("TrackByID(%q) gives %v, %v", w.id(x), got, err)
		}
		t := w.pool[x]
		if t.Name().String() != m.tname[x] || t.Color() != m.tcolor[x] {
			return fmt.Sprintf("track %d has name %q colour %q, expected %q %q", x, t.Name(), t.Color(), m.tname[x], m.tcolor[x])
		}
		if !reflect.DeepEqual(map[string]interface{}(t.Props()), m.tprops[x]) {
			return fmt.Sprintf("track %d has properties %v, expected %v", x, t.Props(), m.tprops[x])
		}
		if d := trackDiff(t, w.pts[x]); d != "" {
			return fmt.Sprintf("track %d: %s", x, d)
		}
	}
	for _, id := range []string{"", "unknown", longID + "x"} {
		if t, err := r.TrackByID(id); t != nil || err == nil {
			return fmt.Sprintf("TrackByID(%q) found a track", id)
		}
	}
	if !reflect.DeepEqual(map[string]interface{}(r.Props()), m.props) {
		return fmt.Sprintf("properties %v, expected %v", r.Props(), m.props)
	}
	sn := r.Snapshot()
	if sn.Id != "the route" || sn.Name != m.name || sn.Color != m.color || !eq(sn.Distance, sum) || len(sn.Tracks) != len(m.tracks) {
		return fmt.Sprintf("saved as %v", sn)
	}
	for i, x := range m.tracks {
		q, t := sn.Tracks[i], w.pool[x]
		if q.Id != t.ID() || q.Name != m.tname[x] || q.Color != m.tcolor[x] || q.IsClosed != t.IsClosed() || len(q.Segmenets) != t.NumSegments() {
			return fmt.Sprintf("track %d saved as %v", i, q)
		}
	}
	return ""
}

func routeEditJob(name string, ops []routeOp, depth int, onlyModel bool, maxTracks int) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		seen := map[string]bool{}
		frontier := [][]int{nil}
		for d := 0; d <= depth && len(frontier) > 0; d++ {
			var next [][]int
			for _, p := range frontier {
				if j.Expired(name) {
					return
				}
				cs := "route"
				for _, k := range p {
					cs += "; " + ops[k].name
				}
				if j.Replay != "" && !strings.HasPrefix(j.Replay, cs) {
					continue
				}
				j.Case(cs)
				j.Protect(name+"/panic", cs, func() {
					w := newRouteWorld()
					bad := ""
					for i, k := range p {
						var v0 int64
						var tv0 [4]int64
						var m0 routeModel
						last := i == len(p)-1
						if last {
							v0 = w.r.Snapshot().Version
							for x := range w.pool {
								tv0[x] = w.pool[x].Snapshot().Version
							}
							m0 = *w.m
						}
						bad = ops[k].run(w)
						if last && bad == "" {
							if v := w.r.Snapshot().Version; (w.m.ver > m0.ver) != (v > v0) || v < v0 {
								bad = fmt.Sprintf("version of the route went from %d to %d, edited=%v", v0, v, w.m.ver > m0.ver)
							}
							for x := range w.pool {
								if v := w.pool[x].Snapshot().Version; (w.m.tver[x] > m0.tver[x]) != (v > tv0[x]) || v < tv0[x] {
									bad = fmt.Sprintf("version of track %d went from %d to %d, edited=%v", x, tv0[x], v, w.m.tver[x] > m0.tver[x])
								}
							}
						}
					}
					j.Transition()
					j.Eval()
					if bad == "" {
						bad = w.diff()
					}
					if bad != "" {
						j.Fail(name+"/edit", cs, "after %s: %s", cs, bad)
						return
					}
					if len(w.m.tracks) > maxTracks {
						return
					}
					key := w.key()
					if onlyModel {
						m := *w.m
						m.ver, m.tver = 0, [4]int{}
						key = fmt.Sprint(m)
					}
					if seen[key] {
						return
					}
					seen[key] = true
					j.State()
					if d == depth {
						j.Sample(cs)
					}
					for k := range ops {
						next = append(next, append(append([]int(nil), p...), k))
					}
				})
				if j.fails > 40 {
					return
				}
			}
			frontier = next
		}
		j.Note(name, fmt.Sprintf("%d states", len(seen)))
	}}
}

// twinTracksJob has several tracks of one id: looking one up and removing one
// concern the same track, one removal takes one track, the others stay as they are.
func twinTracksJob(name string, depth int) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		ids := []string{"a", "a", "b", "a"}
		var walk func(p []int)
		walk = func(p []int) {
			cs := fmt.Sprintf("tracks of equal ids %v", p)
			if j.Expired(name) {
				return
			}
			if j.Want(cs) {
				j.Case(cs)
				j.Eval()
				j.Transition()
				j.Protect(name+"/panic", cs, func() {
					resetWorld()
					r := navigator.NewRoute()
					var pool, have []*navigator.Track
					for i, id := range ids {
						t, err := navigator.RestoreTrack(id, "#010203", fixture{}.points(0, i, trackSpec{5, float64(i + 1)}))
						must(err)
						pool = append(pool, t)
					}
					for _, o := range p {
						if o < len(pool) {
							r.AddTrack(pool[o])
							have = append(have, pool[o])
							continue
						}
						id := []string{"a", "b"}[o-len(pool)]
						found, err := r.TrackByID(id)
						ok := r.RemoveTrack(id)
						if ok != (err == nil) || ok != (found != nil) || (ok && found.ID() != id) {
							j.Fail(name+"/lookup", cs, "%s: RemoveTrack(%q) %v after TrackByID %v, %v", cs, id, ok, found, err)
							return
						}
						if ok {
							// a track that is there twice leaves once, wherever
							var now []*navigator.Track
							r.EachTrack(func(_ int, t *navigator.Track) bool { now = append(now, t); return true })
							good := false
							for i := range have {
								if have[i] == found {
									rest := append(append([]*navigator.Track(nil), have[:i]...), have[i+1:]...)
									if len(rest) == 0 && len(now) == 0 || reflect.DeepEqual(ptrs(rest), ptrs(now)) {
										good, have = true, rest
										break
									}
								}
							}
							if !good {
								j.Fail(name+"/removed", cs, "%s: RemoveTrack(%q) did not leave the route without just the track TrackByID gave", cs, id)
								return
							}
						}
						sum := 0.0
						for _, t := range have {
							sum += t.Distance()
						}
						if r.NumTracks() != len(have) || !eq(sum, r.Distance()) {
							j.Fail(name+"/distance", cs, "%s: %d tracks over %v m, expected %d over %v", cs, r.NumTracks(), r.Distance(), len(have), sum)
							return
						}
					}
					j.State()
				})
			}
			if len(p) < depth {
				for o := 0; o < len(ids)+2; o++ {
					walk(append(append([]int(nil), p...), o))
				}
			}
		}
		walk(nil)
	}}
}

func ptrs(ts []*navigator.Track) (out []string) {
	for _, t := range ts {
		out = append(out, fmt.Sprintf("%p", t))
	}
	return
}

// ---- what an edit must show on: the tracker's version ----

func versionJob() Job {
	return Job{Name: "C19 version", Variant: Plain, Run: func(j *J) {
		edits := []struct {
			name string
			run  func(d *gpsgen.Device)
			edit bool
		}{
			{"route.AddTrack", func(d *gpsgen.Device) { d.RouteAt(0).AddTrack(lineTrack(1, 1, 3)) }, true},
			{"route.RemoveTrack", func(d *gpsgen.Device) { d.RouteAt(0).RemoveTrack(d.RouteAt(0).TrackAt(0).ID()) }, true},
			{"route.RemoveTrack last", func(d *gpsgen.Device) {
				r := d.RouteAt(1)
				r.RemoveTrack(r.TrackAt(r.NumTracks() - 1).ID())
			}, true},
			{"route.ChangeName", func(d *gpsgen.Device) { must(d.RouteAt(1).ChangeName("named")) }, true},
			{"route.ChangeColor", func(d *gpsgen.Device) { must(d.RouteAt(1).ChangeColor(rgb(1, 1, 0))) }, true},
			{"track.ChangeName", func(d *gpsgen.Device) { must(d.RouteAt(1).TrackAt(0).ChangeName("named")) }, true},
			{"track.ChangeColor", func(d *gpsgen.Device) { must(d.RouteAt(0).TrackAt(1).ChangeColor("#fefefe")) }, true},
			{"device.RemoveTrack", func(d *gpsgen.Device) { d.RemoveTrack(d.RouteAt(0).ID(), d.RouteAt(0).TrackAt(1).ID()) }, true},
			{"device.RemoveRoute", func(d *gpsgen.Device) { d.RemoveRoute(d.RouteAt(1).ID()) }, true},
			{"device.AddRoute", func(d *gpsgen.Device) { must(d.AddRoute(longRoute())) }, true},
			{"device.ResetRoutes", func(d *gpsgen.Device) { d.ResetRoutes() }, true},
			{"failed ChangeName", func(d *gpsgen.Device) { _ = d.RouteAt(1).ChangeName("") }, false},
			{"failed ChangeColor", func(d *gpsgen.Device) { _ = d.RouteAt(1).TrackAt(0).ChangeColor("") }, false},
			{"failed RemoveTrack", func(d *gpsgen.Device) { d.RouteAt(0).RemoveTrack("none") }, false},
			{"failed RemoveRoute", func(d *gpsgen.Device) { d.RemoveRoute("none") }, false},
			{"duplicate AddRoute", func(d *gpsgen.Device) { must(d.AddRoute(d.RouteAt(0))) }, false},
			{"Next", func(d *gpsgen.Device) { d.Next(1) }, false},
			{"State", func(d *gpsgen.Device) { d.State() }, false},
			{"Update", func(d *gpsgen.Device) { d.Update() }, false},
		}
		for a := range edits {
			for b := -1; b < len(edits); b++ {
				cs := "version " + edits[a].name
				if b >= 0 {
					cs = "version " + edits[b].name + ", " + edits[a].name
				}
				if !j.Want(cs) {
					continue
				}
				j.Case(cs)
				resetWorld()
				w := devWorld(fixtureByName("two"), true, static(1), skipOff)()
				must(w.D.AddRoute(route(lineTrack(5, 5, 9), lineTrack(6, 5, 9))))
				w.D.RouteAt(1).AddTrack(lineTrack(2, 2, 8))
				skip := false
				func() {
					defer func() {
						if recover() != nil {
							skip = true // the first edit removed what the second one edits
						}
					}()
					if b >= 0 {
						edits[b].run(w.D)
					}
					v := w.D.Version()
					edits[a].run(w.D)
					j.Eval()
					j.Transition()
					changed := w.D.Version() != v
					if changed != edits[a].edit && !(edits[b0(b)].name == "device.ResetRoutes" && b >= 0) {
						j.Fail("C19 version/"+edits[a].name, cs, "%s: version %v -> %v", cs, v, w.D.Version())
					}
				}()
				if !skip {
					j.State()
				}
			}
		}
	}}
}

func b0(b int) int {
	if b < 0 {
		return 0
	}
	return b
}

// ---- properties ----

func propsJob(depth int) Job {
	return Job{Name: "C19 properties", Variant: Plain, Run: func(j *J) {
		vals := []interface{}{"s", "", true, false, 7, int32(-3), int64(1) << 40, 2.5, nil, []int{1}, float32(2), uint(3)}
		// typed readers
		for _, v := range vals {
			cs := fmt.Sprintf("value %T %v", v, v)
			if !j.Want(cs) {
				continue
			}
			j.Case(cs)
			p := properties.Make().Set("k", v)
			s, okS := p.String("k")
			b, okB := p.Bool("k")
			n, okI := p.Int("k")
			f, okF := p.Float64("k")
			ws, wokS := v.(string)
			wb, wokB := v.(bool)
			wf, wokF := v.(float64)
			wn, wokI := 0, true
			switch x := v.(type) {
			case int:
				wn = x
			case int32:
				wn = int(x)
			case int64:
				wn = int(x)
			default:
				wokI = false
			}
			j.Eval()
			j.State()
			if s != ws || okS != wokS || b != wb || okB != wokB || n != wn || okI != wokI || f != wf || okF != wokF {
				j.Fail("C19 properties/typed", cs, "%s reads as string %q %v, bool %v %v, int %v %v, float %v %v", cs, s, okS, b, okB, n, okI, f, okF)
			}
		}
		// histories over two maps
		type st struct{ a, b map[string]interface{} }
		type op struct {
			name string
			run  func(a, b *properties.Properties, m *st)
		}
		ops := []op{
			{"a.Set(x,1)", func(a, b *properties.Properties, m *st) { a.Set("x", 1); m.a["x"] = 1 }},
			{"a.Set(x,2)", func(a, b *properties.Properties, m *st) { a.Set("x", "2"); m.a["x"] = "2" }},
			{"b.Set(x,3)", func(a, b *properties.Properties, m *st) { b.Set("x", 3.5); m.b["x"] = 3.5 }},
			{"b.Set(y,4)", func(a, b *properties.Properties, m *st) { b.Set("y", true); m.b["y"] = true }},
			{"a.Remove(x)", func(a, b *properties.Properties, m *st) { a.Remove("x"); delete(m.a, "x") }},
			{"b.Remove(y)", func(a, b *properties.Properties, m *st) { b.Remove("y"); delete(m.b, "y") }},
			{"a.Merge(b)", func(a, b *properties.Properties, m *st) {
				a.Merge(*b)
				for k, v := range m.b {
					m.a[k] = v
				}
			}},
			{"b.Merge(a)", func(a, b *properties.Properties, m *st) {
				b.Merge(*a)
				for k, v := range m.a {
					m.b[k] = v
				}
			}},
			{"a.Merge(a)", func(a, b *properties.Properties, m *st) { a.Merge(*a) }},
			{"a.Merge(nil)", func(a, b *properties.Properties, m *st) { a.Merge(nil) }},
			{"a.Reset", func(a, b *properties.Properties, m *st) { a.Reset(); m.a = map[string]interface{}{} }},
			{"b.Reset", func(a, b *properties.Properties, m *st) { b.Reset(); m.b = map[string]interface{}{} }},
			{"a.Set(x,map p:1)", func(a, b *properties.Properties, m *st) {
				a.Set("x", map[string]interface{}{"p": 1, "q": 2})
				m.a["x"] = map[string]interface{}{"p": 1, "q": 2}
			}},
			{"b.Set(x,map p:3)", func(a, b *properties.Properties, m *st) {
				b.Set("x", map[string]interface{}{"p": 3, "r": []interface{}{4}})
				m.b["x"] = map[string]interface{}{"p": 3, "r": []interface{}{4}}
			}},
			{"b.Set(x,nil)", func(a, b *properties.Properties, m *st) { b.Set("x", nil); m.b["x"] = nil }},
		}
		seen := map[string]bool{}
		frontier := [][]int{nil}
		for d := 0; d <= depth && len(frontier) > 0; d++ {
			var next [][]int
			for _, p := range frontier {
				cs := "maps"
				for _, k := range p {
					cs += "; " + ops[k].name
				}
				if j.Replay != "" && !strings.HasPrefix(j.Replay, cs) {
					continue
				}
				j.Case(cs)
				a, b := properties.Make(), properties.Make()
				m := &st{map[string]interface{}{}, map[string]interface{}{}}
				for _, k := range p {
					ops[k].run(&a, &b, m)
				}
				j.Eval()
				j.Transition()
				if !reflect.DeepEqual(map[string]interface{}(a), m.a) || !reflect.DeepEqual(map[string]interface{}(b), m.b) {
					j.Fail("C19 properties/maps", cs, "after %s: %v %v, expected %v %v", cs, a, b, m.a, m.b)
					continue
				}
				key := fmt.Sprintf("%#v", sortedProps(m.a)) + fmt.Sprintf("%#v", sortedProps(m.b))
				if seen[key] {
					continue
				}
				seen[key] = true
				j.State()
				for k := range ops {
					next = append(next, append(append([]int(nil), p...), k))
				}
			}
			frontier = next
		}
	}}
}

func sortedProps(m map[string]interface{}) (out []string) {
	for k, v := range m {
		out = append(out, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(out)
	return
}

// shared route objects, constructors taking several tracks, and lists handed out
func copiesJob() Job {
	return Job{Name: "C19 copies", Variant: Plain, Run: func(j *J) {
		check := func(cs string, f func() string) {
			if !j.Want(cs) {
				return
			}
			j.Case(cs)
			j.Eval()
			j.State()
			j.Protect("C19 copies/panic", cs, func() {
				resetWorld()
				if m := f(); m != "" {
					j.Fail("C19 copies/"+cs, cs, "%s: %s", cs, m)
				}
			})
		}
		for n := 0; n <= 4; n++ {
			n := n
			check(fmt.Sprintf("RouteFromTracks of %d", n), func() string {
				var ts []*navigator.Track
				for i := 0; i < n; i++ {
					ts = append(ts, lineTrack(float64(i), 1, 5+float64(i)))
				}
				r := navigator.RouteFromTracks(ts...)
				sum := 0.0
				for i := range ts {
					if r.TrackAt(i) != ts[i] {
						return fmt.Sprintf("track %d is another track", i)
					}
					sum += ts[i].Distance()
					ts[i] = nil // the caller's slice
				}
				if r.NumTracks() != n || !eq(r.Distance(), sum) || r.ID() == "" {
					return fmt.Sprintf("%d tracks of %v m, expected %d of %v m", r.NumTracks(), r.Distance(), n, sum)
				}
				for i := 0; i < n; i++ {
					if r.TrackAt(i) == nil {
						return "writing to the slice passed changed the route"
					}
				}
				return ""
			})
			check(fmt.Sprintf("RouteFromTracks of %d with nil", n), func() string {
				ts := []*navigator.Track{nil}
				for i := 0; i < n; i++ {
					ts = append(ts, lineTrack(float64(i), 1, 5), nil)
				}
				if r := navigator.RouteFromTracks(ts...); r.NumTracks() != n {
					return fmt.Sprintf("%d tracks, expected %d", r.NumTracks(), n)
				}
				return ""
			})
		}
		check("snapshots are copies", func() string {
			r := fixtureByName("two").build()[0]
			r.Props().Set("k", "v")
			before := canon(r.Snapshot())
			sn := r.Snapshot()
			sn.Tracks[0].Segmenets[0].PointA.Lat = 70
			sn.Tracks[0].Id, sn.Tracks[0].Name, sn.Id = "x", "xxx", "y"
			sn.Tracks = sn.Tracks[:1]
			if canon(r.Snapshot()) != before {
				return "changing a snapshot changed the route"
			}
			old := r.Snapshot()
			was := canon(old)
			r.RemoveTrack(r.TrackAt(0).ID())
			must(r.ChangeName("other name"))
			r.Props().Set("k", "w")
			must(r.TrackAt(0).ChangeColor("#ffffff"))
			if canon(old) != was {
				return "editing a route changed a snapshot taken before"
			}
			n := new(navigator.Route)
			must(n.RouteFromSnapshot(old))
			n.RemoveTrack(n.TrackAt(0).ID())
			n.Props().Set("k", "z")
			if canon(old) != was {
				return "editing a restored route changed its snapshot"
			}
			return ""
		})
		check("two routes from the same snapshot", func() string {
			sn := fixtureByName("two").build()[0].Snapshot()
			a, b := new(navigator.Route), new(navigator.Route)
			must(a.RouteFromSnapshot(sn))
			must(b.RouteFromSnapshot(sn))
			before := canon(b.Snapshot())
			a.RemoveTrack(a.TrackAt(0).ID())
			must(a.TrackAt(0).ChangeName("elsewhere"))
			a.TrackAt(0).Props().Set("k", 1)
			a.Props().Set("k", 2)
			must(a.ChangeColor(rgb(1, 0, 0)))
			if canon(b.Snapshot()) != before {
				return "editing one restored route changed the other"
			}
			return ""
		})
		check("RestoreRoute keeps the properties given", func() string {
			p := properties.Properties{"k": "v"}
			r := navigator.RestoreRoute("id", "#ffffff", p)
			if !reflect.DeepEqual(map[string]interface{}(r.Props()), map[string]interface{}{"k": "v"}) || r.ID() != "id" || r.Color() != "#ffffff" || r.NumTracks() != 0 || r.Distance() != 0 {
				return fmt.Sprintf("restored as %v", r.Snapshot())
			}
			return ""
		})
		check("RestoreTrack without id", func() string {
			if t, err := navigator.RestoreTrack("", "#ffffff", []geo.LatLonPoint{ll(1, 1), ll(2, 2)}); err == nil || t != nil {
				return "restored"
			}
			return ""
		})
		check("fresh ids are distinct", func() string {
			seen := map[string]bool{}
			for i := 0; i < 50; i++ {
				for _, id := range []string{navigator.NewRoute().ID(), lineTrack(1, 1, 5).ID()} {
					if id == "" || len(id) > 36 || seen[id] {
						return "id " + id + " again"
					}
					seen[id] = true
				}
			}
			return ""
		})
	}}
}

func init() {
	register(&Check{ID: "C19", Level: "model_checking",
		Rule:        "a state is a distinct (reference route, snapshot) reached by editing histories, or a distinct point sequence; every operation is executed from every state up to the bound and every reading compared with the reference",
		Assumptions: []string{"reading a track by id may count as an edit in the version"},
		Jobs: func(tier string) []Job {
			a := []geo.LatLonPoint{ll(10, 20), ll(10.001, 20), ll(10.001, 20.001), ll(10, 20.001)}
			b := []geo.LatLonPoint{ll(0, 179.999), ll(0, -179.999), ll(0.001, 179.999), ll(89.9, 10)}
			c := []geo.LatLonPoint{ll(-45, 10), ll(-45, 10.000001), ll(-45.000001, 10), ll(0, 0), ll(-0.5, 0)}
			d := []geo.LatLonPoint{ll(1, 2), ll(1, 3), ll(2, 2)}
			n := pick(tier, 6, 8)
			ops := routeOps()
			var core []routeOp
			for _, o := range ops {
				if strings.HasPrefix(o.name, "AddTrack") || strings.HasPrefix(o.name, "RemoveTrack") {
					core = append(core, o)
				}
			}
			return []Job{
				pointsJob("C19 points square", a, n), pointsJob("C19 points antimeridian and pole", b, n), pointsJob("C19 points close", c, pick(tier, 5, 7)), pointsJob("C19 points three", d, pick(tier, 8, 11)),
				routeEditJob("C19 edits", ops, pick(tier, 3, 4), false, 6),
				routeEditJob("C19 edits merged", ops, pick(tier, 5, 6), true, 3),
				routeEditJob("C19 tracks", core, pick(tier, 6, 8), false, 6),
				versionJob(), twinTracksJob("C19 twin tracks", pick(tier, 5, 7)), propsJob(pick(tier, 8, 12)), copiesJob(),
			}
		}})
}
