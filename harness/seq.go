package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"runtime/debug"
	"strings"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/vshim"
)

// ---- exhaustive exploration of operation histories on fresh real objects ----

// World is one instance of the system explored.
type World struct {
	D    *gpsgen.Device
	Pool []*navigator.Route // routes by fixture position, attached or not
	Sens []*gpsgen.Sensor
	Aux  interface{} // check specific (models)
}

// SeqOp is one operation; its result is whatever the caller observes.
type SeqOp struct {
	Name string
	Run  func(w *World) interface{}
	// Model, when set, is applied to the world's model before Run.
	Kind    string
	A, B, C int
	F, F2   float64
	ID, ID2 string
}

// Seq is one exploration: all histories of Ops up to Depth from New.
type Seq struct {
	Name  string
	New   func() *World
	Ops   []SeqOp
	Depth int
	Draw  []float64 // cycle of draws; default constant 0.5
	Max   int       // cap on states (0: none)
	// Canon identifies states; histories reaching the same state are merged.
	Canon func(w *World) string
	// Coarse: only Canon tells states apart. Otherwise the whole memory of the
	// tracker, the routes and the sensors does, too.
	Coarse bool
	// Check judges one transition.
	Check func(c *Tx)
	// Final judges one reached state (after a new state was found).
	Final func(c *Tx)
}

// Tx is one transition under judgement.
type Tx struct {
	J         *J
	S         *Seq
	W         *World
	Op        *SeqOp
	Pre, Post *obs
	Res       interface{}
	Path      []int
	cs        string
	bad       bool
}

func (c *Tx) Fail(kind, format string, a ...interface{}) {
	c.bad = true
	c.J.Fail(c.S.Name+"/"+kind, c.cs, "after %s: %s", c.S.history(c.Path), fmt.Sprintf(format, a...))
}

func (s *Seq) history(path []int) string {
	var b strings.Builder
	for i, k := range path {
		if i > 0 {
			b.WriteString("; ")
		}
		b.WriteString(s.Ops[k].Name)
	}
	return b.String()
}

type seqCase struct {
	Seq  string `json:"seq"`
	Path []int  `json:"path"`
	Ops  string `json:"ops"`
}

func (s *Seq) start() *World {
	resetWorld()
	switch len(s.Draw) {
	case 0:
	case 1:
		vshim.SetConst(s.Draw[0])
	default:
		vshim.SetCycle(s.Draw...)
	}
	return s.New()
}

func h64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// BFS explores the sequence space breadth first.
func (j *J) BFS(s *Seq) {
	caseOf := func(p []int) string {
		b, _ := json.Marshal(seqCase{s.Name, p, s.history(p)})
		return string(b)
	}
	// run replays path; the last op is judged when check is set
	run := func(path []int, check bool) (w *World, canon string, pre, post *obs, ok bool) {
		cs := caseOf(path)
		j.Case(cs)
		c := &Tx{J: j, S: s, Path: path, cs: cs}
		defer func() {
			if r := recover(); r != nil {
				c.Fail("panic", "panic: %v\n%s", r, trimStack(debug.Stack()))
				ok = false
			}
		}()
		w = s.start()
		for i, k := range path {
			last := i == len(path)-1
			if last && check {
				pre = observe(w)
			}
			c.Res = s.Ops[k].Run(w)
			if last && check {
				post = observe(w)
				c.W, c.Op, c.Pre, c.Post = w, &s.Ops[k], pre, post
				j.res.Transitions++
				j.res.Evals++
				if s.Check != nil {
					s.Check(c)
				}
			}
		}
		canon = ""
		if s.Canon != nil {
			canon = s.Canon(w)
		} else {
			canon = canonDev(w.D)
		}
		if !s.Coarse {
			canon += "\x00" + heapOf(w)
		}
		return w, canon, pre, post, !c.bad
	}
	if j.Replay != "" {
		var cs seqCase
		if json.Unmarshal([]byte(j.Replay), &cs) != nil || cs.Seq != s.Name {
			return
		}
		for n := 1; n <= len(cs.Path); n++ {
			run(cs.Path[:n], true)
		}
		if s.Final != nil && len(cs.Path) >= 0 {
			s.final(j, cs.Path, caseOf(cs.Path))
		}
		return
	}
	seen := map[uint64]struct{}{}
	_, c0, _, _, ok := run(nil, false)
	if !ok {
		return
	}
	seen[h64(c0)] = struct{}{}
	j.State()
	if s.Final != nil {
		s.final(j, nil, caseOf(nil))
	}
	frontier := [][]int{nil}
	depth := 0
	for ; depth < s.Depth && len(frontier) > 0; depth++ {
		var next [][]int
		for _, p := range frontier {
			for k := range s.Ops {
				if j.Expired("histories of " + s.Name + fmt.Sprintf(" at depth %d", depth+1)) {
					return
				}
				np := make([]int, len(p)+1)
				copy(np, p)
				np[len(p)] = k
				_, cn, _, _, ok := run(np, true)
				if !ok {
					if j.fails > 40 {
						return
					}
					continue
				}
				h := h64(cn)
				if _, dup := seen[h]; dup {
					continue
				}
				seen[h] = struct{}{}
				j.State()
				j.Trace()
				if s.Final != nil {
					s.final(j, np, caseOf(np))
				}
				if s.Max > 0 && len(seen) > s.Max {
					j.Cap("states of " + s.Name)
					return
				}
				next = append(next, np)
				if len(j.res.Samples) < 2 && len(np) == s.Depth {
					j.Sample(s.Name + ": " + s.history(np))
				}
			}
		}
		frontier = next
	}
	j.Note(s.Name, fmt.Sprintf("depth %d, %d operations, %d states", s.Depth, len(s.Ops), len(seen)))
}

func (s *Seq) final(j *J, path []int, cs string) {
	c := &Tx{J: j, S: s, Path: path, cs: cs}
	defer func() {
		if r := recover(); r != nil {
			c.Fail("panic", "panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	s.Final(c)
}

// Rebuild replays a history on a fresh world.
func (s *Seq) Rebuild(path []int) *World {
	w := s.start()
	for _, k := range path {
		s.Ops[k].Run(w)
	}
	return w
}

// ---- observation of a tracker ----

type obs struct {
	N, R, T, S                                                                     int
	Dist, Cur, RouteDist, CurRoute, TrackDist, CurTrack, SegDist, CurSeg, Dur, Brg float64
	Loc                                                                            geo.LatLonPoint
	Off                                                                            bool
	K                                                                              int
	Skip                                                                           bool
	Seg                                                                            navigator.Segment
	Route                                                                          *navigator.Route
	Track                                                                          *navigator.Track
	St                                                                             *pb.Device
	Snap                                                                           *pb.Snapshot
}

func observe(w *World) *obs {
	if w.D == nil {
		return nil
	}
	return observeDev(w.D)
}

func observeDev(d *gpsgen.Device) *obs {
	o := &obs{
		N: d.NumRoutes(), R: d.RouteIndex(), T: d.TrackIndex(), S: d.SegmentIndex(),
		Dist: d.Distance(), Cur: d.CurrentDistance(), RouteDist: d.RouteDistance(), CurRoute: d.CurrentRouteDistance(),
		TrackDist: d.TrackDistance(), CurTrack: d.CurrentTrackDistance(), SegDist: d.SegmentDistance(), CurSeg: d.CurrentSegmentDistance(),
		Dur: d.Duration(), Brg: d.CurrentBearing(), Loc: d.Location(), Off: d.IsOffline(),
		Seg: d.CurrentSegment(), Route: d.CurrentRoute(), Track: d.CurrentTrack(),
		St: d.State(), Snap: d.Snapshot(),
	}
	if o.Snap.Navigator != nil {
		o.K = int(o.Snap.Navigator.OfflineIndex)
		o.Skip = o.Snap.Navigator.SkipOffline
	}
	return o
}

// place is what a refused call must leave alone.
func (o *obs) place() string {
	return fmt.Sprintf("route=%d track=%d segment=%d dist=%v/%v route=%v/%v track=%v/%v seg=%v/%v loc=%v off=%d",
		o.R, o.T, o.S, o.Cur, o.Dist, o.CurRoute, o.RouteDist, o.CurTrack, o.TrackDist, o.CurSeg, o.SegDist, o.Loc, o.K)
}

func canonDev(d *gpsgen.Device) string {
	return canon(d.Snapshot()) + "|" + canon(d.State())
}

// ---- independent geography ----

const earthR = 6371e3

type vec struct{ x, y, z float64 }

func toVec(p geo.LatLonPoint) vec {
	la, lo := p.Lat*math.Pi/180, p.Lon*math.Pi/180
	return vec{math.Cos(la) * math.Cos(lo), math.Cos(la) * math.Sin(lo), math.Sin(la)}
}
func (a vec) dot(b vec) float64   { return a.x*b.x + a.y*b.y + a.z*b.z }
func (a vec) cross(b vec) vec     { return vec{a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x} }
func (a vec) norm() float64       { return math.Sqrt(a.dot(a)) }
func (a vec) scale(k float64) vec { return vec{a.x * k, a.y * k, a.z * k} }
func (a vec) add(b vec) vec       { return vec{a.x + b.x, a.y + b.y, a.z + b.z} }

// dist is the great-circle distance by vectors.
func dist(a, b geo.LatLonPoint) float64 {
	u, v := toVec(a), toVec(b)
	return earthR * math.Atan2(u.cross(v).norm(), u.dot(v))
}

// along is the point d metres from a on the great circle towards b.
func along(a, b geo.LatLonPoint, d float64) geo.LatLonPoint {
	u, v := toVec(a), toVec(b)
	n := u.cross(v).cross(u)
	l := n.norm()
	if l == 0 {
		return a
	}
	th := d / earthR
	p := u.scale(math.Cos(th)).add(n.scale(math.Sin(th) / l))
	return geo.LatLonPoint{Lat: math.Atan2(p.z, math.Hypot(p.x, p.y)) * 180 / math.Pi, Lon: math.Atan2(p.y, p.x) * 180 / math.Pi}
}

func near(a, b geo.LatLonPoint, tol float64) bool { return dist(a, b) <= tol }

func eq(a, b float64) bool {
	if a == b {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-6 || d <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

// ---- fixture routes ----

type trackSpec []float64 // segment lengths in metres (0: repeated point)
type routeSpec []trackSpec

type fixture struct {
	name   string
	routes []routeSpec
	closed bool // closed square tracks instead of lines
	east   bool // along the equator, across the antimeridian
}

var fixtures = []fixture{
	{name: "none"},
	{name: "one", routes: []routeSpec{{{30, 50, 20}}}},
	{name: "two", routes: []routeSpec{{{10}, {25, 15}}, {{40}}}},
	{name: "three", routes: []routeSpec{{{12, 8}, {20}, {7, 9, 5}, {14}}, {{15}}, {{6, 6}, {30}, {11}}, {{18}}}},
	{name: "zero-segments", routes: []routeSpec{{{10, 0, 15}, {0, 12}, {9, 0}}, {{0, 0, 20}}}},
	{name: "trackless", routes: []routeSpec{{{10}}, {}, {{20, 5}}}},
	{name: "tiny", routes: []routeSpec{{{0.5, 0.4}, {3}}, {{0.9}}}},
	{name: "squares", routes: []routeSpec{{{20, 20, 20, 20}, {8, 8, 8, 8}}}, closed: true},
	{name: "antimeridian", routes: []routeSpec{{{30, 40}, {25}}, {{35}}}, east: true},
}

func fixtureByName(n string) fixture {
	for _, f := range fixtures {
		if f.name == n {
			return f
		}
	}
	panic("no fixture " + n)
}

func (f fixture) points(ri, ti int, lens trackSpec) []geo.LatLonPoint {
	base := ll(10.5+float64(ri)*0.01, 20.5+float64(ti)*0.01)
	if f.east {
		base = ll(0+float64(ri)*0.0001, 179.9998)
	}
	pts := []geo.LatLonPoint{base}
	if f.closed {
		// a square of side lens[0]
		a := lens[0] / mDeg
		k := a / math.Cos(base.Lat*math.Pi/180)
		return append(pts, ll(base.Lat+a, base.Lon), ll(base.Lat+a, base.Lon+k), ll(base.Lat, base.Lon+k), base)
	}
	at := 0.0
	for _, l := range lens {
		at += l
		if f.east {
			lon := base.Lon + at/(mDeg*math.Cos(base.Lat*math.Pi/180))
			if lon > 180 {
				lon -= 360
			}
			pts = append(pts, ll(base.Lat, lon))
		} else {
			pts = append(pts, north(base, at))
		}
	}
	return pts
}

func (f fixture) build() []*navigator.Route {
	var out []*navigator.Route
	for ri, rs := range f.routes {
		id := fmt.Sprintf("route-%d", ri)
		r := navigator.RestoreRoute(id, "#0a0b0c", nil)
		must(r.ChangeName("Route " + id))
		for ti, ts := range rs {
			t, err := navigator.RestoreTrack(fmt.Sprintf("track-%d-%d", ri, ti), "#010203", f.points(ri, ti, ts))
			must(err)
			must(t.ChangeName(fmt.Sprintf("Track %d-%d", ri, ti)))
			r.AddTrack(t)
		}
		out = append(out, r)
	}
	return out
}

// specLen lists the segment lengths of a fixture as really built.
func trackLens(t *navigator.Track) []float64 {
	var out []float64
	for i := 0; i < t.NumSegments(); i++ {
		out = append(out, t.SegmentAt(i).Distance())
	}
	return out
}
