package harness

import (
	"fmt"
	"strings"

	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/vshim"
)

// ---- time owed over the end of the path ----

// finishScenario: the tracker stands at the end of its path, so that whichever
// step succeeds first completes it; the time of the refused ones counts from there.
func finishScenario(threads [][]interface{}, bound int) *Scenario {
	var names []string
	for _, t := range threads {
		names = append(names, fmt.Sprint(t...))
	}
	sc := &Scenario{Name: "C06 finishing " + strings.Join(names, " || "), Bound: bound, Cfg: vshim.Config{Classes: ptsDevice}}
	sc.Body = func(x *Exec) {
		d := newDev("d0", skipOff, static(1))
		must(d.AddRoute(longRoute()))
		d.AddSensor(mkSensor(0))
		if !d.Next(1) {
			panic("first step")
		}
		if !d.DestinationTo(9999.999) {
			panic("destination")
		}
		var all []float64
		for _, t := range threads {
			for _, o := range t {
				if f, ok := o.(float64); ok {
					all = append(all, f)
				}
			}
		}
		for i, t := range threads {
			t := t
			x.Spawn(fmt.Sprintf("t%d", i), func() {
				for _, o := range t {
					switch v := o.(type) {
					case float64:
						d.Next(v)
					case string:
						switch v {
						case "each":
							d.EachRoute(func(int, *navigator.Route) bool { vshim.HP(30); vshim.HP(31); return true })
						case "state":
							d.State()
						}
					}
				}
			})
		}
		if !x.Drive() {
			return
		}
		total := 0.0
		for _, f := range all {
			total += f
		}
		before, tick := d.Duration(), d.State().Tick
		far := d.CurrentDistance() > 5000
		d.Next(1)
		total++
		got := d.Duration()
		if far {
			// every step was refused: the last one completes the path with all the time
			if st := d.State(); got != 0 || st.Tick != total {
				x.Fail("finish-all", "every step was refused, the last one finds duration %v and tick %v, want 0 and %v", got, st.Tick, total)
			}
			return
		}
		owed := got - before - 1
		if before == 0 {
			// nothing but the completing step has been made
			if tick+owed+1 != total {
				x.Fail("finish-owed", "the step that completed the path took %v s and %v s were owed to the next one; %v s were requested", tick, owed, total-1)
			}
		} else {
			// the completing step took what is missing: the times of some of the calls
			took := total - got
			ok := false
			for m := 1; m < 1<<len(all); m++ {
				s := 0.0
				for i, f := range all {
					if m>>i&1 == 1 {
						s += f
					}
				}
				ok = ok || s == took
			}
			if !ok {
				x.Fail("finish-sum", "steps of %v were requested, the duration since the path was completed is %v", all, got-1)
			}
		}
		x.Label = fmt.Sprintf("before %v after %v", before, got)
	}
	return sc
}

// moreTimeJobs: histories in which routes come and go while time is owed.
func moreTimeJobs(tier string) (jobs []Job) {
	N := func(l ...interface{}) []interface{} { return l }
	b := pick(tier, 3, 4)
	for _, t := range [][][]interface{}{
		{N(0.25), N(0.5)},
		{N(0.25), N(0.5), N(4.0)},
		{N("each"), N(0.25), N(0.5)},
		{N(0.25, 0.5), N(4.0, 8.0)},
		{N("state"), N(0.25), N(0.5, 2.0)},
	} {
		bound := b
		if len(t) > 2 || len(t[0]) > 1 {
			bound = b - 1
		}
		sc := finishScenario(t, bound)
		jobs = append(jobs, Job{Name: sc.Name, Variant: Sched, Shards: 4, Run: func(j *J) { j.Explore(sc) }})
	}
	return
}

// comeAndGoJob: few operations, long histories.
func comeAndGoJob(depth int) Job {
	name := "C06 routes come and go"
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		tm := func(w *World) *timeModel { return w.Aux.(*timeModel) }
		s := &Seq{Name: name, Depth: depth}
		s.New = func() *World {
			w := &World{Aux: &timeModel{}}
			w.D = newDev("d0", skipOff, static(2))
			w.D.AddSensor(mkSensor(0))
			w.Pool = fixtureByName("two").build()
			must(w.D.AddRoute(w.Pool...))
			return w
		}
		step := func(n string, busy bool, t float64) {
			s.Ops = append(s.Ops, SeqOp{Name: n, Kind: "step", F: t, Run: func(w *World) interface{} {
				m, d := tm(w), w.D
				if busy {
					if d.NumRoutes() == 0 {
						return false // a step without routes asks for no time
					}
					d.EachRoute(func(int, *navigator.Route) bool {
						if d.Next(t) {
							m.bad = "a step succeeded although the tracker was busy"
						}
						m.owed += t
						return false
					})
					return false
				}
				if d.NumRoutes() == 0 {
					if d.Next(t) {
						m.bad = "a step succeeded without routes"
					}
					return false
				}
				ok := d.Next(t)
				m.total += m.owed + t
				if st := d.State(); st.Tick != m.owed+t {
					m.bad = fmt.Sprintf("the tick of the step is %v, want %v", st.Tick, m.owed+t)
				}
				m.owed = 0
				if n := d.Snapshot().Navigator; !ok && n.RouteIndex == 0 && n.TrackIndex == 0 && n.SegmentIndex == 0 {
					m.total = 0 // the path was completed (its only way back to the start here)
				}
				return ok
			}})
		}
		step("Next(1)", false, 1)
		step("Next(0.5) while busy", true, 0.5)
		s.Ops = append(s.Ops,
			SeqOp{Name: "ResetRoutes", Run: func(w *World) interface{} { return w.D.ResetRoutes() }},
			SeqOp{Name: "AddRoute(all)", Run: func(w *World) interface{} { return w.D.AddRoute(w.Pool...) }},
			SeqOp{Name: "ResetNavigator", Run: func(w *World) interface{} { w.D.ResetNavigator(); return nil }},
			SeqOp{Name: "RemoveRoute(0)", Run: func(w *World) interface{} { return w.D.RemoveRoute(w.Pool[0].ID()) }},
			SeqOp{Name: "Update", Run: func(w *World) interface{} { w.D.Update(); return nil }},
			SeqOp{Name: "ResetSensors", Run: func(w *World) interface{} { w.D.ResetSensors(); return nil }},
		)
		s.Check = func(c *Tx) {
			m := tm(c.W)
			if m.bad != "" {
				c.Fail("tick", "%s", m.bad)
			}
			if got := c.W.D.Duration(); got != m.total {
				c.Fail("duration", "duration %v, want %v (%v s owed)", got, m.total, m.owed)
			}
		}
		s.Canon = func(w *World) string { return canonDev(w.D) + fmt.Sprint(tm(w).owed, tm(w).total) }
		j.BFS(s)
	}}
}
