package harness

import (
	"fmt"
	"math"
)

func pick[T any](j string, q, t T) T {
	if j == "thorough" {
		return t
	}
	return q
}

// judgeValid: a tracker is at a valid place.
func judgeValid(c *Tx) {
	o, d := c.Post, c.W.D
	total := 0.0
	for i := 0; i < d.NumRoutes(); i++ {
		r := d.RouteAt(i)
		rd := 0.0
		for k := 0; k < r.NumTracks(); k++ {
			t := r.TrackAt(k)
			td := 0.0
			for s := 0; s < t.NumSegments(); s++ {
				td += dist(t.SegmentAt(s).PointA(), t.SegmentAt(s).PointB())
			}
			if !eq(td, t.Distance()) {
				c.Fail("track-length", "track %s reports %v m, its segments sum to %v", t.ID(), t.Distance(), td)
			}
			rd += td
		}
		if !eq(rd, r.Distance()) {
			c.Fail("route-length", "route %s reports %v m, its tracks sum to %v", r.ID(), r.Distance(), rd)
		}
		total += rd
	}
	if !eq(total, o.Dist) {
		c.Fail("total-length", "total distance is %v, the routes present sum to %v", o.Dist, total)
	}
	for _, x := range []float64{o.Cur, o.CurRoute, o.CurTrack, o.CurSeg, o.Dur} {
		if !(x >= 0) || math.IsInf(x, 0) {
			c.Fail("negative", "travelled distance or duration is %v: %s", x, o.place())
		}
	}
	if o.N == 0 {
		if o.R != 0 || o.T != 0 || o.S != 0 || o.Route != nil || o.Track != nil || !o.Seg.IsEmpty() {
			c.Fail("index", "no routes, but the current place is %d/%d/%d", o.R, o.T, o.S)
		}
		return
	}
	if a := dirt(c.W); a != nil && a.dirty {
		return
	}
	if o.R < 0 || o.R >= o.N {
		c.Fail("index", "route index %d of %d routes", o.R, o.N)
		return
	}
	r := d.RouteAt(o.R)
	if o.Route != r {
		c.Fail("current", "current route is not the route at the route index %d", o.R)
	}
	if !eq(o.RouteDist, r.Distance()) {
		c.Fail("current", "route distance %v, current route has %v", o.RouteDist, r.Distance())
	}
	if r.NumTracks() == 0 {
		if o.Track != nil || o.T != 0 || o.S != 0 {
			c.Fail("index", "current route has no tracks, but the track index is %d, segment index %d", o.T, o.S)
		}
		return
	}
	if o.T < 0 || o.T >= r.NumTracks() {
		c.Fail("index", "track index %d of %d tracks (route %d)", o.T, r.NumTracks(), o.R)
		return
	}
	t := r.TrackAt(o.T)
	if o.Track != t {
		c.Fail("current", "current track is not the track at the track index")
	}
	if !eq(o.TrackDist, t.Distance()) {
		c.Fail("current", "track distance %v, current track has %v", o.TrackDist, t.Distance())
	}
	if o.S < 0 || o.S >= t.NumSegments() {
		c.Fail("index", "segment index %d of %d segments", o.S, t.NumSegments())
		return
	}
	g := t.SegmentAt(o.S)
	if o.Seg != g {
		c.Fail("current", "current segment is not the segment at the segment index %d", o.S)
	}
	if !eq(o.SegDist, g.Distance()) {
		c.Fail("current", "segment distance %v, current segment has %v", o.SegDist, g.Distance())
	}
	moved := false
	switch c.Op.Kind {
	case "step", "move", "moveid", "rel", "dest", "destfrac":
		moved, _ = c.Res.(bool)
	}
	if moved {
		l := dist(g.PointA(), g.PointB())
		if x := dist(g.PointA(), o.Loc) + dist(o.Loc, g.PointB()) - l; math.Abs(x) > 1e-5 || math.IsNaN(x) {
			c.Fail("location", "location %v is off the current segment %v-%v by %v m", o.Loc, g.PointA(), g.PointB(), x)
		}
	}
}

func navOps(f fixture, tier string) []SeqOp {
	ops := []SeqOp{opStep(1), opStep(4), opStep(50), opOffline(), opResetNav(), opResetRoutes(), opNextRoute(), opPrevRoute(),
		opDestFrac(1, 10), opDestFrac(0.5, 0), opDest(1.5)}
	for i := range f.routes {
		ops = append(ops, opMoveRoute(i), opAddRoute(i), opRemoveRoute(i))
		if i < 2 || tier == "thorough" {
			ops = append(ops, opDirectAdd(i, 9, 0))
		}
		n := len(f.routes[i])
		for k := 0; k < n; k++ {
			if k == 0 || k == n-1 || tier == "thorough" {
				ops = append(ops, opRemoveTrack(i, k))
			}
			if k == n-1 {
				ops = append(ops, opMoveSeg(i, k, len(f.routes[i][k])-1), opDirectRemove(i, k), opDirectRemove(i, 0))
			}
		}
	}
	return ops
}

func moveOps(f fixture, tier string) []SeqOp {
	ops := []SeqOp{opStep(3), opStep(40), opOffline(), opNextRoute(), opPrevRoute(), opRemoveRoute(0)}
	if len(f.routes) == 0 {
		ops = ops[:5]
	}
	max := len(f.routes) + 1
	mt := 1
	for _, r := range f.routes {
		if len(r)+1 > mt {
			mt = len(r) + 1
		}
	}
	for r := -1; r < max; r++ {
		ops = append(ops, opMoveRoute(r))
		if r < 0 || r >= len(f.routes) {
			ops = append(ops, opMoveTrack(r, 0), opMoveSeg(r, 0, 0))
			continue
		}
		for t := -1; t <= len(f.routes[r]); t++ {
			ops = append(ops, opMoveTrack(r, t))
			n := 1
			if t >= 0 && t < len(f.routes[r]) {
				n = len(f.routes[r][t])
				if f.closed {
					n = 4
				}
			}
			for s := -1; s <= n; s++ {
				ops = append(ops, opMoveSeg(r, t, s))
			}
			ops = append(ops, opMoveTrackID(fmt.Sprintf("route-%d", r), fmt.Sprintf("track-%d-%d", r, t)))
		}
		ops = append(ops, opMoveRouteID(fmt.Sprintf("route-%d", r)))
	}
	ops = append(ops, opMoveRouteID(""), opMoveRouteID("route-9"), opMoveTrackID("route-0", ""), opMoveTrackID("", "track-0-0"), opMoveTrackID("route-9", "track-0-0"))
	return ops
}

// destOps: distances around every boundary of the fixture and on a grid.
func destOps(f fixture) []SeqOp {
	var ops []SeqOp
	seen := map[float64]bool{}
	add := func(d float64) {
		if !seen[d] {
			seen[d] = true
			ops = append(ops, opDest(d))
		}
	}
	for _, d := range []float64{-5, 0, 0.5, 0.999, 1.001, 1.5, math.NaN(), math.Inf(1), math.Inf(-1), 1e9} {
		add(d)
	}
	w := devWorld(f, true)()
	ps, total := line(w.D)
	for _, p := range ps {
		for _, e := range []float64{-0.001, 0.001, p.Len / 2, p.Len/4 + 0.1} {
			add(p.SegStart + e)
		}
	}
	add(total)
	add(total - 0.001)
	add(total + 0.001)
	return ops
}

var drawPolicies = []float64{0, 0.5, 0.9999999}

func init() {
	level := "model_checking"
	rule := "a state is a distinct (snapshot, published state) of the tracker reached by a history of operations; every operation of the alphabet is executed from every state up to the depth bound and judged"
	assume := []string{"random draws are fixed per exploration to one of the enumerated constants", "tolerances: 1e-6 m on distances, 1e-4 m on locations"}
	register(&Check{ID: "C07", Level: level, Rule: rule, Assumptions: assume, Jobs: func(tier string) []Job {
		var jobs []Job
		for _, f := range fixtures {
			for _, draw := range drawPolicies {
				for _, attached := range []bool{true, false} {
					for _, skip := range []bool{true, false} {
						f, draw, attached, skip := f, draw, attached, skip
						if skip && draw != 0.5 || !attached && len(f.routes) == 0 {
							continue
						}
						opts := []devOpt{static(3), offline(0, 3)}
						if skip {
							opts = append(opts, skipOff)
						}
						mk := devWorld(f, attached, opts...)
						depth := pick(tier, 3, 4)
						if len(f.routes) <= 2 {
							depth = pick(tier, 4, 5)
						}
						if len(f.routes) == 0 {
							depth = 6
						}
						s := &Seq{Name: fmt.Sprintf("C07 %s attached=%v skip=%v draw=%v", f.name, attached, skip, draw), Draw: []float64{draw},
							New: func() *World { w := mk(); w.Aux = &dirtState{}; return w },
							Ops: navOps(f, tier), Depth: depth, Check: judgeValid,
							Canon: func(w *World) string { return fmt.Sprint(*w.Aux.(*dirtState)) + canonDev(w.D) + canonPool(w) }}
						jobs = append(jobs, Job{Name: s.Name, Variant: Plain, Run: func(j *J) { j.BFS(s) }})
					}
				}
			}
		}
		return jobs
	}})
	register(&Check{ID: "C08", Level: level, Rule: rule, Assumptions: assume, Jobs: func(tier string) []Job {
		var jobs []Job
		type cfg struct {
			name  string
			opts  []devOpt
			steps []float64
		}
		speed := func(min, max float64) devOpt {
			return func(o *devOptions) { o.Speed.Min, o.Speed.Max = min, max }
		}
		cfgs := []cfg{
			{"speed=1 skip", []devOpt{static(1), skipOff}, []float64{0.25, 1, 3, 8, 13}},
			{"speed=2.5 offline=0..2", []devOpt{static(2.5), offline(0, 2)}, []float64{0.5, 2, 4, 9}},
			{"speed=0.1 skip", []devOpt{static(0.1), skipOff}, []float64{1, 10, 55}},
			{"speed=0.1 offline=1..2", []devOpt{static(0.1), offline(1, 2)}, []float64{1, 10, 55}},
			{"speed=0..4 offline=1..3", []devOpt{speed(0, 4), offline(1, 3)}, []float64{1, 2, 5}},
			{"speed=3..9 skip", []devOpt{speed(3, 9), skipOff}, []float64{1, 2}},
			{"speed=40 skip", []devOpt{static(40), skipOff}, []float64{0.1, 1, 2}},
		}
		for _, f := range fixtures {
			for _, c := range cfgs {
				for _, draw := range drawPolicies {
					f, c, draw := f, c, draw
					if draw != 0.5 && c.opts != nil && len(c.steps) > 4 {
						continue
					}
					var ops []SeqOp
					for _, t := range c.steps {
						ops = append(ops, opStep(t))
					}
					depth := map[int]int{2: pick(tier, 12, 15), 3: pick(tier, 9, 11), 4: pick(tier, 8, 9), 5: pick(tier, 7, 8)}[len(ops)]
					if len(f.routes) == 0 {
						depth = 3
					}
					s := &Seq{Name: fmt.Sprintf("C08 %s %s draw=%v", f.name, c.name, draw), Draw: []float64{draw},
						New: devWorld(f, true, c.opts...), Ops: ops, Depth: depth, Check: judgeStep, Max: pick(tier, 40000, 400000)}
					jobs = append(jobs, Job{Name: s.Name, Variant: Plain, Run: func(j *J) { j.BFS(s) }})
				}
			}
			// steps that end exactly at the end of a segment
			lens := map[float64]bool{}
			for _, r := range f.build() {
				for k := 0; k < r.NumTracks(); k++ {
					for q := 0; q < r.TrackAt(k).NumSegments(); q++ {
						l := r.TrackAt(k).SegmentAt(q).Distance()
						if l == 0 || lens[l] || len(lens) >= pick(tier, 4, 12) {
							continue
						}
						lens[l] = true
						f, n := f, len(lens)
						s := &Seq{Name: fmt.Sprintf("C08 %s exact ends %d", f.name, n), New: devWorld(f, true, static(l), skipOff),
							Ops: []SeqOp{opStep(1), opStep(0.5), opStep(0.25)}, Depth: pick(tier, 9, 12), Check: judgeStep, Max: pick(tier, 10000, 100000)}
						jobs = append(jobs, Job{Name: s.Name, Variant: Plain, Run: func(j *J) { j.BFS(s) }})
					}
				}
			}
			// moves in between, so that every segment is a starting point
			f := f
			if len(f.routes) > 0 {
				ops := append([]SeqOp{opStep(2), opStep(5), opStep(11), opDest(7), opDestFrac(0.9, 0)}, moveOps(f, tier)...)
				s := &Seq{Name: "C08 " + f.name + " from everywhere", New: devWorld(f, true, static(1.5), offline(0, 2)), Draw: []float64{0}, Ops: ops, Depth: pick(tier, 3, 4),
					Check: func(c *Tx) {
						if c.Op.Kind == "step" {
							judgeStep(c)
						}
					}}
				jobs = append(jobs, Job{Name: s.Name, Variant: Plain, Run: func(j *J) { j.BFS(s) }})
			}
		}
		for _, name := range []string{"one", "two", "zero-segments", "trackless"} {
			for _, skip := range []bool{false, true} {
				jobs = append(jobs, navEndJob(fixtureByName(name), skip, pick(tier, 6, 8)))
			}
		}
		return jobs
	}})
	register(&Check{ID: "C09", Level: level, Rule: rule, Assumptions: assume, Jobs: func(tier string) []Job {
		var jobs []Job
		check := func(c *Tx) {
			switch c.Op.Kind {
			case "step":
				if len(c.Path) > 1 {
					judgeStep(c)
				}
			case "move", "moveid", "rel", "dest", "destfrac":
				judgeMove(c)
			}
		}
		for _, f := range fixtures {
			f := f
			for _, draw := range []float64{0, 0.9} {
				s := &Seq{Name: fmt.Sprintf("C09 %s moves draw=%v", f.name, draw), New: devWorld(f, true, static(2), offline(0, 4)), Draw: []float64{draw}, Ops: moveOps(f, tier), Depth: pick(tier, 3, 4), Check: check}
				jobs = append(jobs, Job{Name: s.Name, Variant: Plain, Run: func(j *J) { j.BFS(s) }})
				t := &Seq{Name: fmt.Sprintf("C09 %s destinations draw=%v", f.name, draw), New: devWorld(f, true, static(2), offline(0, 4)), Draw: []float64{draw},
					Ops: append([]SeqOp{opStep(1), opStep(7), opOffline()}, destOps(f)...), Depth: pick(tier, 3, 4), Check: check}
				jobs = append(jobs, Job{Name: t.Name, Variant: Plain, Run: func(j *J) { j.BFS(t) }})
			}
		}
		return jobs
	}})
}

func canonPool(w *World) string {
	s := ""
	for _, r := range w.Pool {
		s += canon(r.Snapshot())
	}
	return s
}
