package harness

import (
	"fmt"
	"math"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
)

// operations on a tracker

func opStep(t float64) SeqOp {
	return SeqOp{Name: fmt.Sprintf("Next(%v)", t), Kind: "step", F: t, Run: func(w *World) interface{} {
		ok := w.D.Next(t)
		if a := dirt(w); a != nil && a.dirty && !a.wasOff {
			a.dirty = false
		}
		if a := dirt(w); a != nil {
			a.wasOff = w.D.IsOffline()
		}
		return ok
	}}
}
func opMoveSeg(r, t, s int) SeqOp {
	return SeqOp{Name: fmt.Sprintf("MoveToSegment(%d,%d,%d)", r, t, s), Kind: "move", A: r, B: t, C: s, Run: func(w *World) interface{} { return w.D.MoveToSegment(r, t, s) }}
}
func opMoveTrack(r, t int) SeqOp {
	return SeqOp{Name: fmt.Sprintf("MoveToTrack(%d,%d)", r, t), Kind: "move", A: r, B: t, Run: func(w *World) interface{} { return w.D.MoveToTrack(r, t) }}
}
func opMoveRoute(r int) SeqOp {
	return SeqOp{Name: fmt.Sprintf("MoveToRoute(%d)", r), Kind: "move", A: r, Run: func(w *World) interface{} { return w.D.MoveToRoute(r) }}
}
func opMoveRouteID(id string) SeqOp {
	return SeqOp{Name: fmt.Sprintf("MoveToRouteByID(%q)", id), Kind: "moveid", ID: id, B: -1, Run: func(w *World) interface{} { return w.D.MoveToRouteByID(id) }}
}
func opMoveTrackID(id, tid string) SeqOp {
	return SeqOp{Name: fmt.Sprintf("MoveToTrackByID(%q,%q)", id, tid), Kind: "moveid", ID: id, ID2: tid, Run: func(w *World) interface{} { return w.D.MoveToTrackByID(id, tid) }}
}
func opNextRoute() SeqOp {
	return SeqOp{Name: "ToNextRoute", Kind: "rel", A: 1, Run: func(w *World) interface{} { return w.D.ToNextRoute() }}
}
func opPrevRoute() SeqOp {
	return SeqOp{Name: "ToPrevRoute", Kind: "rel", A: -1, Run: func(w *World) interface{} { return w.D.ToPrevRoute() }}
}
func opDest(d float64) SeqOp {
	return SeqOp{Name: fmt.Sprintf("DestinationTo(%v)", d), Kind: "dest", F: d, Run: func(w *World) interface{} { return w.D.DestinationTo(d) }}
}

// opDestFrac: distance as a fraction of the current total (plus offset).
func opDestFrac(f, off float64) SeqOp {
	return SeqOp{Name: fmt.Sprintf("DestinationTo(%v*total%+v)", f, off), Kind: "destfrac", F: f, F2: off, Run: func(w *World) interface{} {
		return w.D.DestinationTo(f*w.D.Distance() + off)
	}}
}
func opOffline() SeqOp {
	return SeqOp{Name: "ToOffline", Kind: "offline", Run: func(w *World) interface{} {
		w.D.ToOffline()
		if a := dirt(w); a != nil {
			a.wasOff = w.D.IsOffline()
		}
		return nil
	}}
}
func opResetNav() SeqOp {
	return SeqOp{Name: "ResetNavigator", Kind: "resetnav", Run: func(w *World) interface{} { w.D.ResetNavigator(); clean(w); return nil }}
}
func opUpdate() SeqOp {
	return SeqOp{Name: "Update", Kind: "update", Run: func(w *World) interface{} { w.D.Update(); return nil }}
}
func opAddRoute(i int) SeqOp {
	return SeqOp{Name: fmt.Sprintf("AddRoute(#%d)", i), Kind: "addroute", A: i, Run: func(w *World) interface{} {
		n := w.D.NumRoutes()
		err := w.D.AddRoute(w.Pool[i])
		if w.D.NumRoutes() != n {
			clean(w)
		}
		return err
	}}
}
func opRemoveRoute(i int) SeqOp {
	return SeqOp{Name: fmt.Sprintf("RemoveRoute(#%d)", i), Kind: "removeroute", A: i, Run: func(w *World) interface{} {
		ok := w.D.RemoveRoute(w.Pool[i].ID())
		if ok {
			clean(w)
		}
		return ok
	}}
}
func opRemoveTrack(i, k int) SeqOp {
	return SeqOp{Name: fmt.Sprintf("RemoveTrack(#%d,%d)", i, k), Kind: "removetrack", A: i, B: k, Run: func(w *World) interface{} {
		t := w.Pool[i].TrackAt(k)
		id := "track-gone"
		if t != nil {
			id = t.ID()
		}
		return w.D.RemoveTrack(w.Pool[i].ID(), id)
	}}
}
func opResetRoutes() SeqOp {
	return SeqOp{Name: "ResetRoutes", Kind: "resetroutes", Run: func(w *World) interface{} { ok := w.D.ResetRoutes(); clean(w); return ok }}
}

// direct edits of a route object
func opDirectRemove(i, k int) SeqOp {
	return SeqOp{Name: fmt.Sprintf("route#%d.RemoveTrack(%d)", i, k), Kind: "direct", A: i, B: k, Run: func(w *World) interface{} {
		t := w.Pool[i].TrackAt(k)
		if t == nil {
			return false
		}
		if a := dirt(w); a != nil {
			a.dirty = true
		}
		return w.Pool[i].RemoveTrack(t.ID())
	}}
}
func opDirectAdd(i int, len1, len2 float64) SeqOp {
	return SeqOp{Name: fmt.Sprintf("route#%d.AddTrack(%v,%v)", i, len1, len2), Kind: "direct", A: i, Run: func(w *World) interface{} {
		pts := fixture{}.points(7, i, trackSpec{len1, len2})
		t, err := navigator.NewTrack(pts)
		must(err)
		w.Pool[i].AddTrack(t)
		return nil
	}}
}

type dirtState struct{ dirty, wasOff bool }

func dirt(w *World) *dirtState {
	a, _ := w.Aux.(*dirtState)
	return a
}
func clean(w *World) {
	if a := dirt(w); a != nil {
		a.dirty = false
	}
}

// devWorld makes a tracker carrying the fixture's routes.
func devWorld(f fixture, attached bool, opts ...devOpt) func() *World {
	return func() *World {
		w := &World{D: newDev("dev", opts...)}
		w.Pool = f.build()
		if attached && len(w.Pool) > 0 {
			must(w.D.AddRoute(w.Pool...))
		}
		return w
	}
}

// ---- shared oracles ----

// segsOf lists the segment lengths of the routes the tracker really has.
func segsOf(d *gpsgen.Device) (rs [][][]float64) {
	for i := 0; i < d.NumRoutes(); i++ {
		r := d.RouteAt(i)
		var ts [][]float64
		for k := 0; k < r.NumTracks(); k++ {
			ts = append(ts, trackLens(r.TrackAt(k)))
		}
		rs = append(rs, ts)
	}
	return
}

type place struct {
	R, T, S  int
	SegStart float64 // distance of the segment's start along everything
	TrStart  float64
	RtStart  float64
	Len      float64
	Seg      navigator.Segment
}

// line lists all segments with positive length along the concatenation of all tracks.
func line(d *gpsgen.Device) (ps []place, total float64) {
	at := 0.0
	for i := 0; i < d.NumRoutes(); i++ {
		r := d.RouteAt(i)
		r0 := at
		for k := 0; k < r.NumTracks(); k++ {
			t := r.TrackAt(k)
			t0 := at
			for s := 0; s < t.NumSegments(); s++ {
				g := t.SegmentAt(s)
				l := dist(g.PointA(), g.PointB())
				if l > 0 {
					ps = append(ps, place{i, k, s, at, t0, r0, l, g})
				}
				at += l
			}
		}
	}
	return ps, at
}

// expect of one step, computed from what was observable before it.
type stepExpect struct {
	moved                           bool
	finished                        bool
	offline                         bool // an offline period was running
	endTrack                        bool
	R, T, S                         int
	Cur, CurRoute, CurTrack, CurSeg float64
	locAt                           float64 // metres from the segment's start, when moved
	alt                             *stepExpect
}

// walk predicts a step of d metres.
func walk(rs [][][]float64, o *obs, d float64) *stepExpect {
	var alt *stepExpect
	e := &stepExpect{R: o.R, T: o.T, S: o.S, Cur: o.Cur, CurRoute: o.CurRoute, CurTrack: o.CurTrack, CurSeg: o.CurSeg}
	seg := func() float64 {
		if e.R < len(rs) && e.T < len(rs[e.R]) && e.S < len(rs[e.R][e.T]) {
			return rs[e.R][e.T][e.S]
		}
		return 0
	}
	for {
		l := seg()
		end := e.CurSeg + d
		if l > 0 && math.Abs(end-l) < 1e-9 && alt == nil && !(end == l && l-e.CurSeg == d) {
			// exactly at the end of the segment within rounding: either reading is fine
			a := *e
			if end <= l {
				// the alternative does not fit here
				alt = walkOn(rs, a, d)
			} else {
				a.fit(d)
				alt = &a
			}
		}
		if l > 0 && end <= l {
			e.fit(d)
			e.alt = alt
			return e
		}
		if e.R < len(rs) && e.T < len(rs[e.R]) && e.S < len(rs[e.R][e.T])-1 {
			e.S++
			e.CurSeg = 0
			continue
		}
		e.leave(rs)
		e.alt = alt
		return e
	}
}

// walkOn continues after deciding that the current segment cannot hold the step.
func walkOn(rs [][][]float64, e stepExpect, d float64) *stepExpect {
	for e.S < len(rs[e.R][e.T])-1 {
		e.S++
		e.CurSeg = 0
		l := rs[e.R][e.T][e.S]
		if l > 0 && d <= l {
			e.fit(d)
			return &e
		}
	}
	e.leave(rs)
	return &e
}

func (e *stepExpect) fit(d float64) {
	e.moved = true
	e.locAt = e.CurSeg + d
	if e.S == 0 && e.CurSeg == 0 {
		e.locAt = 1
	}
	e.Cur += d
	e.CurSeg += d
	e.CurTrack += d
	e.CurRoute += d
}

func (e *stepExpect) leave(rs [][][]float64) {
	e.endTrack = true
	e.S, e.CurSeg, e.CurTrack = 0, 0, 0
	if e.T < len(rs[e.R])-1 {
		e.T++
		return
	}
	e.T, e.CurRoute = 0, 0
	if e.R < len(rs)-1 {
		e.R++
		return
	}
	e.R, e.Cur, e.finished = 0, 0, true
}

func (e *stepExpect) matches(c *Tx) string {
	o, p := c.Post, c.Pre
	res, _ := c.Res.(bool)
	if res != e.moved {
		return fmt.Sprintf("step returned %v, expected %v", res, e.moved)
	}
	if o.R != e.R || o.T != e.T || o.S != e.S {
		return fmt.Sprintf("tracker is at route %d track %d segment %d, expected %d/%d/%d", o.R, o.T, o.S, e.R, e.T, e.S)
	}
	for _, x := range []struct {
		n    string
		a, b float64
	}{{"travelled distance", o.Cur, e.Cur}, {"travelled route distance", o.CurRoute, e.CurRoute}, {"travelled track distance", o.CurTrack, e.CurTrack}, {"travelled segment distance", o.CurSeg, e.CurSeg}} {
		if !eq(x.a, x.b) {
			return fmt.Sprintf("%s is %v, expected %v", x.n, x.a, x.b)
		}
	}
	if e.moved {
		at := e.locAt
		if at > o.Seg.Distance() { // one metre in, but not beyond the segment
			at = o.Seg.Distance()
		}
		want := along(o.Seg.PointA(), o.Seg.PointB(), at)
		if !near(o.Loc, want, 1e-4) {
			return fmt.Sprintf("location %v is %.6f m away from the expected point %v (%v m into the segment)", o.Loc, dist(o.Loc, want), want, at)
		}
	} else if o.Loc != p.Loc {
		return fmt.Sprintf("location changed from %v to %v although the step did not move", p.Loc, o.Loc)
	}
	return ""
}

// judgeStep checks one Next(t) against the reference walk.
func judgeStep(c *Tx) {
	p, o, t := c.Pre, c.Post, c.Op.F
	res, _ := c.Res.(bool)
	if p.N == 0 {
		if res {
			c.Fail("step", "a tracker without routes moved")
		}
		if p.place() != o.place() || p.Dur != o.Dur {
			c.Fail("step", "a step without routes changed the tracker: %s -> %s", p.place(), o.place())
		}
		return
	}
	rs := segsOf(c.W.D)
	if p.K > 0 && !p.Skip {
		if res {
			c.Fail("step", "moved while offline")
		}
		if p.R != o.R || p.T != o.T || p.S != o.S || p.Cur != o.Cur || p.CurRoute != o.CurRoute || p.CurTrack != o.CurTrack || p.CurSeg != o.CurSeg || p.Loc != o.Loc {
			c.Fail("step", "an offline step moved the tracker: %s -> %s", p.place(), o.place())
		}
		if !eq(o.Dur, p.Dur+t) {
			c.Fail("step-duration", "duration %v after an offline step of %v from %v", o.Dur, t, p.Dur)
		}
		return
	}
	speed := o.St.Speed
	if c.W.D != nil && o.Snap.Speed != nil && o.Snap.Speed.Min == o.Snap.Speed.Max {
		speed = o.Snap.Speed.Min
	}
	e := walk(rs, p, t*speed)
	m := e.matches(c)
	if m != "" && e.alt != nil {
		if e.alt.matches(c) == "" {
			m, e = "", e.alt
		}
	}
	if m != "" {
		c.Fail("step", "%s [step %v at speed %v from %s]", m, t, speed, p.place())
		return
	}
	want := p.Dur + t
	if e.finished {
		want = 0
	}
	if !eq(o.Dur, want) {
		c.Fail("step-duration", "duration is %v, expected %v", o.Dur, want)
	}
	if e.moved && !eq(o.St.Tick, t) {
		c.Fail("step-duration", "published step time %v, expected %v", o.St.Tick, t)
	}
	if e.endTrack && !p.Skip {
		sn := o.Snap.Navigator
		if int64(o.K) < sn.OfflineMin || (int64(o.K) >= sn.OfflineMax && sn.OfflineMax > sn.OfflineMin) {
			c.Fail("step-offline", "end of track, but the offline period is %d steps, range [%d,%d)", o.K, sn.OfflineMin, sn.OfflineMax)
		}
	}
	if e.moved && o.K != 0 || (p.Skip && o.K != 0) {
		c.Fail("step-offline", "offline for %d steps after a moving step (or although disabled)", o.K)
	}
}

// judgeMove checks the repositioning operations.
func judgeMove(c *Tx) {
	p, o, op := c.Pre, c.Post, c.Op
	d := c.W.D
	res, _ := c.Res.(bool)
	unchanged := func() {
		if p.place() != o.place() || p.Dur != o.Dur {
			c.Fail("refused-move", "refused, but changed the tracker: %s -> %s", p.place(), o.place())
		}
		if canon(p.St) != canon(o.St) {
			c.Fail("refused-move", "refused, but changed the published state")
		}
	}
	tr, tt, ts := -1, 0, 0
	switch op.Kind {
	case "move":
		tr, tt, ts = op.A, op.B, op.C
	case "moveid":
		for i := 0; i < d.NumRoutes(); i++ {
			if d.RouteAt(i).ID() == op.ID && op.ID != "" {
				tr = i
				break
			}
		}
		if tr >= 0 && op.B != -1 {
			tt = -1
			r := d.RouteAt(tr)
			for k := 0; k < r.NumTracks(); k++ {
				if r.TrackAt(k).ID() == op.ID2 {
					tt = k
					break
				}
			}
		}
	case "rel":
		tr = p.R + op.A
	case "dest", "destfrac":
		judgeDest(c, res, unchanged)
		return
	}
	exists := tr >= 0 && tr < d.NumRoutes() && tt >= 0 && tt < d.RouteAt(tr).NumTracks() && ts >= 0 && ts < d.RouteAt(tr).TrackAt(tt).NumSegments()
	want := exists && (tr != p.R || tt != p.T || ts != p.S)
	if res != want {
		c.Fail("move-result", "returned %v, expected %v (target exists=%v, from %d/%d/%d)", res, want, exists, p.R, p.T, p.S)
		return
	}
	if !res {
		unchanged()
		return
	}
	if o.R != tr || o.T != tt || o.S != ts {
		c.Fail("move-place", "moved to %d/%d/%d, expected %d/%d/%d", o.R, o.T, o.S, tr, tt, ts)
		return
	}
	seg := d.RouteAt(tr).TrackAt(tt).SegmentAt(ts)
	if o.Loc != seg.PointA() {
		c.Fail("move-place", "location %v is not the start of the segment %v", o.Loc, seg.PointA())
	}
	if o.CurSeg != 0 {
		c.Fail("move-dist", "travelled segment distance %v after a move to a segment's start", o.CurSeg)
	}
	if o.K != 0 || o.Off {
		c.Fail("move-offline", "still offline after a move")
	}
	if (tr != p.R || tt != p.T) && o.CurTrack != 0 {
		c.Fail("move-dist", "travelled track distance %v after a move to another track", o.CurTrack)
	}
	if tr != p.R && o.CurRoute != 0 {
		c.Fail("move-dist", "travelled route distance %v after a move to another route", o.CurRoute)
	}
	if tr == p.R && o.CurRoute != p.CurRoute || (tr == p.R && tt == p.T && o.CurTrack != p.CurTrack) || o.Cur != p.Cur {
		c.Fail("move-dist", "a move changed travelled distances it should keep: %s -> %s", p.place(), o.place())
	}
}

func judgeDest(c *Tx, res bool, unchanged func()) {
	p, o := c.Pre, c.Post
	d := c.W.D
	ps, total := line(d)
	m := c.Op.F
	if c.Op.Kind == "destfrac" {
		m = c.Op.F*p.Dist + c.Op.F2
	}
	eff := math.Min(m, total)
	if math.IsNaN(m) {
		eff = m
	}
	if math.Abs(eff-1) < 1e-9 {
		return // too close to call
	}
	if res != (eff >= 1) {
		c.Fail("dest-result", "returned %v for %v m of %v m", res, m, total)
		return
	}
	if !res {
		unchanged()
		return
	}
	why := ""
	for _, q := range ps {
		off := eff - q.SegStart
		if off < -1e-6 || off > q.Len+1e-6 {
			continue
		}
		if o.R != q.R || o.T != q.T || o.S != q.S {
			if why == "" {
				why = fmt.Sprintf("tracker is at %d/%d/%d, expected %d/%d/%d", o.R, o.T, o.S, q.R, q.T, q.S)
			}
			continue
		}
		switch {
		case !eq(o.CurSeg, off):
			why = fmt.Sprintf("segment distance %v, expected %v", o.CurSeg, off)
		case !eq(o.CurTrack, eff-q.TrStart):
			why = fmt.Sprintf("track distance %v, expected %v", o.CurTrack, eff-q.TrStart)
		case !eq(o.CurRoute, eff-q.RtStart):
			why = fmt.Sprintf("route distance %v, expected %v", o.CurRoute, eff-q.RtStart)
		case !eq(o.Cur, eff):
			why = fmt.Sprintf("travelled distance %v, expected %v", o.Cur, eff)
		case !near(o.Loc, along(q.Seg.PointA(), q.Seg.PointB(), off), 1e-4):
			why = fmt.Sprintf("location %v, expected %v", o.Loc, along(q.Seg.PointA(), q.Seg.PointB(), off))
		default:
			return
		}
	}
	if why == "" {
		why = "no segment contains the target"
	}
	c.Fail("dest", "DestinationTo(%v) of %v m: %s (%s)", m, total, why, o.place())
}
