package harness

import (
	"fmt"
	"math"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/types"
	"github.com/mmadfox/go-gpsgen/vshim"
)

// ---- concurrent steps: no time lost, none invented ----

// stepThreads: every entry is a thread of operations; a number is Next(number).
type stepThreads struct {
	threads [][]interface{}
	bound   int
	empty   int // routes are added by thread "add"
}

func stepScenario(c stepThreads) *Scenario {
	var names []string
	for _, t := range c.threads {
		names = append(names, fmt.Sprint(t...))
	}
	sc := &Scenario{Name: "C06 steps " + strings.Join(names, " || "), Bound: c.bound, Cfg: vshim.Config{Classes: ptsDevice}}
	sc.Body = func(x *Exec) {
		d := newDev("d0", skipOff, static(1))
		must(d.AddRoute(longRoute()))
		d.AddSensor(mkSensor(0))
		if !d.Next(1) {
			panic("first step")
		}
		total := 1.0
		for _, t := range c.threads {
			for _, o := range t {
				if f, ok := o.(float64); ok {
					total += f
				}
			}
		}
		for i, t := range c.threads {
			t := t
			x.Spawn(fmt.Sprintf("t%d", i), func() {
				for _, o := range t {
					switch v := o.(type) {
					case float64:
						d.Next(v)
					case string:
						switch v {
						case "each":
							d.EachRoute(func(int, *navigator.Route) bool { vshim.HP(30); vshim.HP(31); vshim.HP(32); return true })
						case "sensors":
							d.EachSensor(func(int, *types.Sensor) bool { vshim.HP(33); vshim.HP(34); return true })
						case "state":
							d.State()
						case "snapshot":
							d.Snapshot()
						case "update":
							d.Update()
						case "model":
							_ = d.SetModel("other")
						case "move":
							d.MoveToRoute(0)
						}
					}
				}
			})
		}
		if !x.Drive() {
			return
		}
		before := d.Duration()
		if before > total {
			x.Fail("invented", "duration %v after steps of %v seconds in all", before, total)
			return
		}
		ok := d.Next(1)
		total++
		if got := d.Duration(); !ok || got != total {
			x.Fail("total", "steps of %v seconds in all were requested, the duration is %v (Next %v); before the last, undisturbed step %v", total, got, ok, before)
			return
		}
		if st := d.State(); st.Duration != total || st.Tick != total-before {
			x.Fail("state", "the state has duration %v and tick %v, want %v and %v", st.Duration, st.Tick, total, total-before)
		}
		x.Label = fmt.Sprintf("duration before the last step %v", before)
	}
	return sc
}

// ---- the generator's ticks while trackers are busy ----

func busyTickScenario(n, workers, bound int, ops []string, eager bool) *Scenario {
	I := 2 * time.Second
	sc := &Scenario{Name: fmt.Sprintf("C06 busy n=%d w=%d %s eager=%v", n, workers, strings.Join(ops, " || "), eager), Bound: bound}
	sc.Cfg = vshim.Config{Quantum: I / 4, MaxIdle: 40, Classes: ptsRoot | ptsDevice, Horizon: 40000, Thin: 4, ThinMod: 512}
	sc.Body = func(x *Exec) {
		g := newGen(I, 1024, workers)
		r := &rec{}
		r.hook(g)
		var devs []*gpsgen.Device
		for i := 0; i < n; i++ {
			d := newDev(fmt.Sprintf("d%d", i), skipOff, static(1))
			must(d.AddRoute(longRoute()))
			devs = append(devs, d)
			must(g.Attach(d))
		}
		own := 0.0
		for k, op := range ops {
			k, op := k, op
			spawn := x.SpawnLazy
			if eager {
				spawn = x.Spawn
			}
			if op == "next" {
				own += 0.25
			}
			spawn("op"+op, func() {
				time.Sleep(I)
				vshim.HP(10 + k)
				d := devs[k%n]
				switch op {
				case "each":
					d.EachRoute(func(int, *navigator.Route) bool { vshim.HP(30); vshim.HP(31); return true })
				case "long": // busy over the next tick
					d.EachRoute(func(int, *navigator.Route) bool { time.Sleep(I); vshim.HP(31); return true })
				case "snapshot":
					d.Snapshot()
				case "update":
					d.Update()
				case "next":
					d.Next(0.25)
				}
			})
		}
		x.Spawn("run", r.run(g))
		x.SpawnLazy("closer", func() { time.Sleep(2*I + I/2); vshim.HP(1); g.Close() })
		if !x.Drive() {
			return
		}
		for i, d := range devs {
			want := 2*I.Seconds() + 1
			for k, op := range ops {
				if op == "next" && k%n == i {
					want += 0.25
				}
			}
			ok := d.Next(1)
			if got := d.Duration(); !ok || got != want {
				x.Fail("total", "tracker %d: two ticks of 2 s and the calls' own steps make %v s with a last undisturbed step, the duration is %v", i, want, got)
				return
			}
		}
		recs, bad := r.decode()
		if bad != "" {
			x.Fail("blank", "%s", bad)
			return
		}
		var l []string
		for _, p := range recs {
			l = append(l, fmt.Sprintf("%s:%v", p.Id, p.Duration))
		}
		x.Label = strings.Join(l, " ")
	}
	return sc
}

// ---- slow callbacks, late starts, every pattern ----

type slowCfg struct {
	interval time.Duration
	cb       string // which callback is slow: "packet" or "next"
	late     float64
	workers  int
	n        int
	length   int
}

func (c slowCfg) name() string {
	return fmt.Sprintf("C06 slow %s interval=%v late=%v workers=%d trackers=%d", c.cb, c.interval, c.late, c.workers, c.n)
}

// slowJob runs the generator with every sequence of callback times.
func slowJob(c slowCfg, menu []float64) Job {
	name := c.name()
	return Job{Name: name, Variant: Plain, Shards: 4, Run: func(j *J) {
		total := 1
		for i := 0; i < c.length; i++ {
			total *= len(menu)
		}
		for k := 0; k < total; k++ {
			if !j.Mine(k) {
				continue
			}
			var pat []float64
			for i, q := 0, k; i < c.length; i++ {
				pat = append(pat, menu[q%len(menu)])
				q /= len(menu)
			}
			cs := fmt.Sprintf("%s pattern %v", name, pat)
			if !j.Want(cs) {
				continue
			}
			if j.Expired(name) {
				return
			}
			j.Case(cs)
			j.Eval()
			j.State()
			j.Distinct(cs)
			slowRun(j, c, name, cs, pat)
		}
		j.Sample(fmt.Sprintf("%s: all %d patterns of %d callback times out of %v intervals", name, total, c.length, menu))
	}}
}

func slowRun(j *J, c slowCfg, name, cs string, pat []float64) {
	synctest.Test(j.T, func(t *testing.T) {
		resetWorld()
		I := c.interval
		g := newGen(I, 1024, c.workers)
		type obsTick struct {
			at   time.Duration
			durs []float64
		}
		var ticks []obsTick
		var start time.Time
		calls := 0
		slow := func() {
			i := calls
			calls++
			if i < len(pat) && pat[i] > 0 {
				time.Sleep(time.Duration(pat[i] * float64(I)))
			}
		}
		var problem string
		g.OnPacket(func(b []byte) {
			p, err := gpsgen.PacketFromBytes(b)
			if err != nil {
				problem = err.Error()
				return
			}
			o := obsTick{at: time.Since(start)}
			for _, d := range p.Devices {
				o.durs = append(o.durs, d.Duration)
			}
			ticks = append(ticks, o)
			if c.cb == "packet" {
				slow()
			}
		})
		g.OnNext(func() {
			if c.cb == "next" {
				slow()
			}
		})
		var devs []*gpsgen.Device
		for i := 0; i < c.n; i++ {
			d := newDev(fmt.Sprintf("d%d", i), skipOff, static(0.001))
			must(d.AddRoute(longRoute()))
			must(g.Attach(d))
			devs = append(devs, d)
		}
		time.Sleep(time.Duration(c.late * float64(I)))
		start = time.Now()
		go g.Run()
		synctest.Wait()
		// long enough for the slow calls and three quick ticks
		sum := 0.0
		for _, p := range pat {
			sum += math.Max(1, math.Ceil(p))
		}
		for time.Since(start) < time.Duration((sum+4)*float64(I))+I/2 {
			time.Sleep(I / 2)
			synctest.Wait()
		}
		g.Close()
		synctest.Wait()
		if problem != "" || len(ticks) < len(pat) {
			j.Fail(name+"/packets", cs, "%d ticks; %s", len(ticks), problem)
			return
		}
		prevAt, prevD := time.Duration(0), 0.0
		for k, o := range ticks {
			j.Transition()
			if len(o.durs) != c.n {
				j.Fail(name+"/packets", cs, "tick %d delivers %d trackers", k, len(o.durs))
				return
			}
			for _, d := range o.durs {
				if d != o.durs[0] {
					j.Fail(name+"/equal", cs, "tick %d: the trackers' durations differ: %v", k, o.durs)
					return
				}
			}
			d, T := o.durs[0], o.at.Seconds()
			if I >= time.Second {
				// at the latest, the time of the first tick due after the previous one was begun
				due := (math.Floor(prevAt.Seconds()/I.Seconds()+1e-9) + 1) * I.Seconds()
				if d > T*(1+1e-12)+1e-9 || d < math.Min(due, T)*(1-1e-12)-1e-9 {
					j.Fail(name+"/elapsed", cs, "tick %d, begun %v after Run, brings the duration to %v; want the time elapsed, %v to %v (ticks %v)", k, o.at, d, due, T, ticks)
					return
				}
				if c.cb != "packet" && (math.Abs(d-T) > 1e-9*T || math.Abs(T-float64(k+1)*I.Seconds()) > 1e-9) {
					j.Fail(name+"/ontime", cs, "tick %d was begun %v after Run with duration %v although the packet callback is quick", k, o.at, d)
					return
				}
				if k >= len(pat)+2 && math.Abs(d-T) > 1e-9*(1+T) {
					j.Fail(name+"/total", cs, "with quick callbacks again, tick %d at %v has duration %v: time was lost or invented (ticks %v)", k, o.at, d, ticks)
					return
				}
			} else {
				step := d - prevD
				if step < 1 || step > math.Max(1, T-math.Max(0, prevAt.Seconds()-maxOf(pat)*I.Seconds()-I.Seconds()))+1e-9 {
					j.Fail(name+"/second", cs, "tick %d: step of %v s (ticks %v)", k, step, ticks)
					return
				}
				if maxOf(pat) == 0 && step != 1 {
					j.Fail(name+"/second", cs, "tick %d: step of %v s, want one second", k, step)
					return
				}
			}
			prevAt, prevD = o.at, d
		}
		for i, d := range devs {
			if d.Duration() != prevD {
				j.Fail(name+"/end", cs, "tracker %d ends with duration %v, its last record has %v", i, d.Duration(), prevD)
			}
		}
		j.Trace()
	})
}

func maxOf(l []float64) (m float64) {
	for _, x := range l {
		m = math.Max(m, x)
	}
	return
}

// attachedTicksJob: trackers attached and detached between ticks are stepped by
// whole ticks, once each.
func attachedTicksJob(depth int) Job {
	name := "C06 attached ticks"
	return Job{Name: name, Variant: Plain, Shards: 4, Run: func(j *J) {
		// per half interval: 0 nothing, 1 attach/detach a, 2 attach/detach b
		total := 1
		for i := 0; i < depth; i++ {
			total *= 3
		}
		for k := 0; k < total; k++ {
			if !j.Mine(k) {
				continue
			}
			var pat []int
			for i, q := 0, k; i < depth; i++ {
				pat = append(pat, q%3)
				q /= 3
			}
			cs := fmt.Sprintf("%s %v", name, pat)
			if !j.Want(cs) {
				continue
			}
			if j.Expired(name) {
				return
			}
			j.Case(cs)
			j.Eval()
			j.State()
			j.Distinct(cs)
			synctest.Test(j.T, func(t *testing.T) {
				resetWorld()
				I := 2 * time.Second
				g := newGen(I, 1024, 1)
				r := &rec{}
				r.hook(g)
				devs := []*gpsgen.Device{newDev("a", skipOff, static(1)), newDev("b", skipOff, static(1))}
				on := []bool{true, false}
				want := []float64{0, 0}
				for _, d := range devs {
					must(d.AddRoute(longRoute()))
				}
				must(g.Attach(devs[0]))
				go g.Run()
				synctest.Wait()
				time.Sleep(I / 4)
				for i, p := range pat {
					if p > 0 {
						d := devs[p-1]
						if on[p-1] {
							must(g.Detach(d.ID()))
						} else {
							must(g.Attach(d))
						}
						on[p-1] = !on[p-1]
					}
					time.Sleep(I / 2)
					synctest.Wait()
					if i%2 == 1 { // a tick lies in this half
						for q := range devs {
							if on[q] {
								want[q] += I.Seconds()
							}
						}
					}
					for q := range devs {
						j.Transition()
						if got := devs[q].Duration(); got != want[q] {
							j.Fail(name+"/duration", cs, "half interval %d: tracker %d has duration %v, want %v", i, q, got, want[q])
						}
					}
				}
				g.Close()
				synctest.Wait()
				j.Trace()
			})
		}
	}}
}

// ---- sequential histories of free and busy steps ----

type timeModel struct {
	owed, total float64
	bad         string
}

// stepHistoriesJob: every history of free and busy steps among other calls.
func stepHistoriesJob(fx string, depth int) Job {
	name := "C06 histories " + fx
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		tm := func(w *World) *timeModel { return w.Aux.(*timeModel) }
		s := &Seq{Name: name, Depth: depth}
		s.New = func() *World {
			w := &World{Aux: &timeModel{}}
			w.D = newDev("d0", skipOff, static(2))
			if fx == "offline" {
				w.D = newDev("d0", offline(2, 3), static(2), batteryOpt(0, 20*time.Second))
				w.Pool = fixtureByName("two").build()
			} else {
				w.Pool = fixtureByName(fx).build()
			}
			must(w.D.AddRoute(w.Pool...))
			return w
		}
		step := func(t float64, busy bool) {
			n := fmt.Sprintf("Next(%v)", t)
			if busy {
				n = fmt.Sprintf("Next(%v) while busy", t)
			}
			s.Ops = append(s.Ops, SeqOp{Name: n, Kind: "step", F: t, Run: func(w *World) interface{} {
				m := tm(w)
				if busy {
					ran := false
					w.D.EachRoute(func(int, *navigator.Route) bool {
						if w.D.Next(t) {
							m.bad = "a step succeeded although the tracker was busy"
						}
						ran = true
						return false
					})
					if ran {
						m.owed += t
					}
					return false
				}
				if w.D.NumRoutes() == 0 {
					w.D.Next(t)
					return false
				}
				offline := w.D.IsOffline()
				ok := w.D.Next(t)
				m.total += m.owed + t
				if st := w.D.State(); st.Tick != m.owed+t {
					m.bad = fmt.Sprintf("the tick of the step is %v, want %v", st.Tick, m.owed+t)
				}
				m.owed = 0
				// a step without a new position from which the tracker is back
				// at the very start has completed the path, and the time counts
				// from there; where the battery may have taken it offline at
				// the start instead, both are possible
				d := w.D
				n := d.Snapshot().Navigator
				if !ok && !offline && n.RouteIndex == 0 && n.TrackIndex == 0 && n.SegmentIndex == 0 && d.CurrentDistance() == 0 {
					if fx != "offline" || d.Duration() == 0 {
						m.total = 0
					}
				}
				return true
			}})
		}
		for _, t := range []float64{0.5, 1, 4, 30} {
			step(t, false)
			step(t, true)
		}
		s.Ops = append(s.Ops, opMoveRoute(0), opOffline(), opUpdate(), opResetNav(), opDest(3), opRemoveRoute(0), opAddRoute(0))
		s.Check = func(c *Tx) {
			m := tm(c.W)
			if m.bad != "" {
				c.Fail("tick", "%s", m.bad)
			}
			if got := c.W.D.Duration(); got != m.total {
				c.Fail("duration", "duration %v, want %v (%v s owed)", got, m.total, m.owed)
			}
		}
		s.Canon = func(w *World) string { return canonDev(w.D) + fmt.Sprint(tm(w).owed, tm(w).total) }
		j.BFS(s)
	}}
}

func init() {
	register(&Check{ID: "C06", Level: "model_checking",
		Rule:        "an execution is one schedule of threads stepping or keeping busy a tracker (or of a generator's two ticks beside them); a state is a reached history of free and busy steps, or one pattern of callback times of a running generator; the durations must be the sum of the requested step times or the time elapsed since Run",
		Assumptions: []string{"fake clock", "static speeds, fixed draws"},
		Jobs: func(tier string) []Job {
			th := tier == "thorough"
			var jobs []Job
			N := func(l ...interface{}) []interface{} { return l }
			b := pick(tier, 3, 4)
			for _, c := range []stepThreads{
				{threads: [][]interface{}{N("each"), N(0.25), N(0.5), N(4.0)}, bound: b},
				{threads: [][]interface{}{N(2.0, 0.5), N(0.25, 4.0)}, bound: b},
				{threads: [][]interface{}{N(2.0), N(0.5), N("state")}, bound: b},
				{threads: [][]interface{}{N(2.0), N(0.5), N("snapshot", "update")}, bound: b - 1},
				{threads: [][]interface{}{N("sensors", "each"), N(0.25, 0.5), N(4.0)}, bound: b},
				{threads: [][]interface{}{N("each"), N(0.25, 0.5, 4.0)}, bound: b},
				{threads: [][]interface{}{N("model"), N(0.25), N(0.5)}, bound: b},
				{threads: [][]interface{}{N("move"), N(0.25), N(0.5)}, bound: b - 1},
				{threads: [][]interface{}{N("each"), N("each"), N(0.25, 8.0), N(0.5)}, bound: b - 1},
				{threads: [][]interface{}{N("each", "each"), N(0.25), N(0.5), N(4.0), N(16.0)}, bound: 2},
			} {
				sc := stepScenario(c)
				jobs = append(jobs, Job{Name: sc.Name, Variant: Sched, Shards: 8, Run: func(j *J) { j.Explore(sc) }})
			}
			for _, ops := range [][]string{{"each"}, {"long"}, {"snapshot"}, {"update"}, {"next"}, {"each", "next"}, {"long", "next"}, {"snapshot", "long"}} {
				for _, n := range []int{1, 2} {
					for _, eager := range []bool{false, true} {
						sc := busyTickScenario(n, 1, pick(tier, 1, 2), ops, eager)
						jobs = append(jobs, Job{Name: sc.Name, Variant: Sched, Shards: 2, Run: func(j *J) { j.Explore(sc) }})
					}
				}
			}
			menu := []float64{0, 0.5, 1, 1.5, 2.5}
			for _, I := range []time.Duration{time.Second, 1500 * time.Millisecond, 2 * time.Second, 500 * time.Millisecond, time.Minute} {
				for _, cb := range []string{"packet", "next"} {
					for _, late := range []float64{0, 0.3, 2.7} {
						if late > 0 && !th && I != 2*time.Second {
							continue
						}
						jobs = append(jobs, slowJob(slowCfg{interval: I, cb: cb, late: late, workers: 1, n: 2, length: pick(tier, 3, 5)}, menu))
					}
				}
			}
			jobs = append(jobs, slowJob(slowCfg{interval: 2 * time.Second, cb: "packet", workers: 3, n: 1, length: pick(tier, 3, 5)}, []float64{0, 0.5, 0.99, 1, 1.01, 2, 3.2}))
			// far apart, and nowhere near whole seconds
			for _, I := range []time.Duration{1500 * time.Millisecond, 61300 * time.Millisecond} {
				for _, cb := range []string{"packet", "next"} {
					jobs = append(jobs, slowJob(slowCfg{interval: I, cb: cb, workers: 1, n: 1, length: pick(tier, 2, 3)}, []float64{0, 1.3, 11.7, 45.7, 2900.3}))
				}
			}
			jobs = append(jobs, moreTimeJobs(tier)...)
			jobs = append(jobs, comeAndGoJob(pick(tier, 6, 8)))
			jobs = append(jobs, attachedTicksJob(pick(tier, 6, 9)))
			jobs = append(jobs, changesJob("C06", pick(tier, 4, 5), 1, 8))
			for _, fx := range []string{"two", "one", "offline", "trackless", "tiny"} {
				jobs = append(jobs, stepHistoriesJob(fx, pick(tier, 4, 5)))
			}
			return jobs
		}})
}
