package harness

import (
	"fmt"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/vshim"
)

// closeScenario: one generator, n trackers, Close issued in a given way.
type closeCfg struct {
	n, workers int
	packet     int
	interval   time.Duration
	how        string // "driver", "twice", "before", "packet", "next", "error", "pre-tick"
	at         time.Duration
	cb         string // what callbacks do besides recording
	bad        bool   // first tracker cannot be encoded
	bound      int
	thin       bool
	routes     bool
	eager      bool          // the closer competes with the others for its turn
	caller     string        // what other threads call meanwhile
	who        string        // which callbacks do cb: "" is all, or "packet", "next", "error"
	slow       time.Duration // how long a slow callback takes; 5/4 of the interval if 0
}

func (c closeCfg) name() string {
	e := ""
	if c.eager {
		e = " eager"
	}
	if c.caller != "" {
		e += " caller=" + c.caller
	}
	if c.who != "" {
		e += " in=" + c.who
	}
	if c.slow > 0 {
		e += fmt.Sprintf(" for=%v", c.slow)
	}
	return fmt.Sprintf("close n=%d w=%d p=%d how=%s at=%v cb=%s bad=%v%s", c.n, c.workers, c.packet, c.how, c.at, c.cb, c.bad, e)
}

func closeScenario(c closeCfg) *Scenario {
	if c.interval == 0 {
		c.interval = 2 * time.Second
	}
	sc := &Scenario{Name: c.name(), Bound: c.bound}
	sc.Cfg = vshim.Config{Quantum: c.interval / 4, MaxIdle: 40, Classes: ptsRoot, Horizon: 8000, Thin: 6, ThinMod: 512}
	if c.thin {
		sc.Cfg.Thin, sc.Cfg.ThinMod, sc.Cfg.QuietLocks, sc.Cfg.Horizon = 3, 512, true, 400000
	}
	sc.Body = func(x *Exec) {
		g := newGen(c.interval, c.packet, c.workers)
		r := &rec{}
		r.hook(g)
		var devs []*gpsgen.Device
		for i := 0; i < c.n; i++ {
			d := newDev(fmt.Sprintf("d%d", i), skipOff, static(1))
			if c.routes {
				must(d.AddRoute(longRoute()))
			}
			devs = append(devs, d)
			must(g.Attach(d))
		}
		if c.bad {
			devs[0].SetDescription("\xff\xfe")
		}
		extra := newDev("extra", skipOff, static(1))
		slow := c.slow
		if slow == 0 {
			slow = c.interval * 5 / 4
		}
		do := func(what string) {
			switch what {
			case "read":
				g.NumDevices()
				g.HasTracker("d0")
				g.Lookup("d1")
			case "each":
				g.Each(func(i int, d *gpsgen.Device) bool { d.ID(); return true })
			case "each-calls":
				g.Each(func(i int, d *gpsgen.Device) bool {
					g.NumDevices()
					g.HasTracker(d.ID())
					return i < 4
				})
			case "each-edits":
				g.Each(func(i int, d *gpsgen.Device) bool {
					if d.ID() == "d0" {
						_ = g.Detach("d0")
						_ = g.Attach(d)
						return false
					}
					return true
				})
			case "attach":
				_ = g.Attach(extra)
				_ = g.Detach("extra")
			case "detach":
				_ = g.Detach("d0")
			case "device":
				if len(devs) > 0 {
					devs[0].SetDescription("z")
					devs[0].Next(1)
					devs[0].State()
				}
			case "hook":
				g.OnNext(r.next)
			case "hooks":
				g.OnError(r.err)
				g.OnNext(r.next)
			case "close":
				g.Close()
			case "slow":
				time.Sleep(slow)
				vshim.HP(2)
			}
		}
		act := func(in string) {
			if c.who == "" || c.who == in {
				do(c.cb)
			}
		}
		g.OnPacket(func(b []byte) {
			r.packet(b)
			act("packet")
			if c.how == "packet" {
				g.Close()
			}
		})
		g.OnError(func(e error) {
			r.err(e)
			act("error")
			if c.how == "error" {
				g.Close()
			}
		})
		if c.cb != "hook" {
			g.OnNext(func() {
				r.next()
				act("next")
				if c.how == "next" {
					g.Close()
				}
			})
		}
		if c.how == "before" {
			g.Close()
		}
		x.Spawn("run", r.run(g))
		spawn := x.SpawnLazy
		if c.eager {
			spawn = x.Spawn
		}
		if c.caller != "" {
			x.Spawn("caller", func() { time.Sleep(c.at); vshim.HP(3); do(c.caller); vshim.HP(4); do(c.caller) })
		}
		// stuck: until Close is called the ticks go on, whatever the callbacks call
		stuck := func() {
			need := int((c.at - 1) / c.interval)
			if c.at <= c.interval || c.cb == "slow" || c.cb == "close" || c.cb == "hook" || c.caller == "close" {
				return
			}
			nexts := func() int {
				r.lock()
				defer r.unlock()
				return r.nexts
			}
			for i := 0; i < 6 && nexts() < need; i++ {
				time.Sleep(c.interval)
			}
			if n := nexts(); n < need {
				x.Fail("stuck", "%d ticks are over and the generator was not closed, but only %d were completed", need+6, n)
			}
		}
		switch c.how {
		case "driver":
			spawn("closer", func() { time.Sleep(c.at); vshim.HP(1); stuck(); g.Close() })
		case "twice":
			spawn("closer", func() { time.Sleep(c.at); vshim.HP(1); stuck(); g.Close(); g.Close() })
			spawn("closer2", func() { time.Sleep(c.at); vshim.HP(1); g.Close() })
		}
		if !x.Drive() {
			return
		}
		for _, p := range r.problems {
			x.Fail("late-callback", "%s", p)
		}
		x.Label = fmt.Sprintf("packets=%d nexts=%d errs=%d", len(r.packets), r.nexts, len(r.errs))
	}
	return sc
}

// callNames are the generator calls of the sequences below: every method, on what
// is there, what is not, and what it has to refuse.
var callNames = []string{"Attach(nil)", "Attach(extra)", "Attach(closed)", "Attach(d0)", "Attach(taken)",
	"Detach()", "Detach(d0)", "Detach(nope)", "Detach(extra)", "HasTracker(d0)", "HasTracker(nope)",
	"Lookup()", "Lookup(d0)", "Lookup(nope)", "Each", "Each, stopped", "NumDevices", "OnError", "OnError(nil)", "OnNext", "OnPacket(nil)"}

// callsScenario: two calls in order, made before Run, between ticks or inside a
// callback; then a tracker comes and goes, ticks go on and the generator is closed.
func callsScenario(phase string, n int, a, b string) *Scenario {
	const I = 2 * time.Second
	sc := &Scenario{Name: fmt.Sprintf("calls %s n=%d %s; %s", phase, n, a, b)}
	sc.Cfg = vshim.Config{Quantum: I / 4, MaxIdle: 40, Classes: ptsRoot, Horizon: 8000, Thin: 6, ThinMod: 512}
	sc.Body = func(x *Exec) {
		g, other := newGen(I, 1024, 1), newGen(I, 1024, 1)
		r := &rec{}
		r.hook(g)
		d0 := newDev("d0", skipOff, static(1))
		if n > 0 {
			must(g.Attach(d0))
		}
		extra, closed, taken, last := newDev("extra", skipOff), newDev("closed", skipOff), newDev("taken", skipOff), newDev("last", skipOff)
		must(g.Attach(closed))
		must(g.Detach("closed"))
		must(other.Attach(taken))
		var next func()
		do := func(c string) {
			switch c {
			case "Attach(nil)":
				_ = g.Attach(nil)
			case "Attach(extra)":
				_ = g.Attach(extra)
			case "Attach(closed)":
				_ = g.Attach(closed)
			case "Attach(d0)":
				_ = g.Attach(d0)
			case "Attach(taken)":
				_ = g.Attach(taken)
			case "Detach()":
				_ = g.Detach("")
			case "Detach(d0)":
				_ = g.Detach("d0")
			case "Detach(nope)":
				_ = g.Detach("nope")
			case "Detach(extra)":
				_ = g.Detach("extra")
			case "HasTracker(d0)":
				g.HasTracker("d0")
			case "HasTracker(nope)":
				g.HasTracker("nope")
			case "Lookup()":
				g.Lookup("")
			case "Lookup(d0)":
				g.Lookup("d0")
			case "Lookup(nope)":
				g.Lookup("nope")
			case "Each":
				g.Each(func(int, *gpsgen.Device) bool { return true })
			case "Each, stopped":
				g.Each(func(int, *gpsgen.Device) bool { return false })
			case "NumDevices":
				g.NumDevices()
			case "OnError":
				g.OnError(r.err)
			case "OnError(nil)":
				g.OnError(nil)
			case "OnNext":
				g.OnNext(next)
			case "OnPacket(nil)":
				g.OnPacket(nil)
			}
		}
		done, afterwards := false, 0
		both := func() {
			if !done {
				done = true
				do(a)
				do(b)
			}
		}
		next = func() {
			r.next()
			if phase == "in a callback" {
				both()
			}
			if done {
				afterwards++
			}
		}
		g.OnNext(next)
		if phase == "before Run" {
			both()
		}
		x.Spawn("run", r.run(g))
		x.SpawnLazy("driver", func() {
			time.Sleep(I * 3 / 2)
			vshim.HP(1)
			if phase == "between ticks" {
				both()
			}
			time.Sleep(I)
			vshim.HP(2)
			if err := g.Attach(last); err != nil {
				x.Fail("refused", "after %s; %s a new tracker is refused: %v", a, b, err)
			}
			time.Sleep(I)
			vshim.HP(3)
			if err := g.Detach("last"); err != nil {
				x.Fail("refused", "after %s; %s the new tracker is not found: %v", a, b, err)
			}
			if !done || afterwards < 1 {
				x.Fail("stuck", "after %s; %s no tick was completed", a, b)
			}
			g.Close()
		})
		if !x.Drive() {
			return
		}
		for _, p := range r.problems {
			x.Fail("late-callback", "%s", p)
		}
		x.Label = fmt.Sprintf("afterwards=%d", afterwards)
	}
	return sc
}

func callsJob(phase string, n, part, of int) Job {
	return Job{Name: fmt.Sprintf("calls in order, %s, n=%d, part %d", phase, n, part), Variant: Sched, Run: func(j *J) {
		for i, a := range callNames {
			if i%of != part {
				continue
			}
			for _, b := range callNames {
				j.Explore(callsScenario(phase, n, a, b))
			}
		}
	}}
}

// trackerCallsScenario: two calls of a tracker, made inside a callback of the
// generator it is attached to, or while it runs; then ticks and calls go on.
func trackerCallsScenario(in string, a, b call) *Scenario {
	const I = 2 * time.Second
	sc := &Scenario{Name: fmt.Sprintf("tracker calls in %s callback: %s; %s", in, a.name, b.name)}
	sc.Cfg = vshim.Config{Quantum: I / 4, MaxIdle: 40, Classes: ptsRoot, Horizon: 8000, Thin: 6, ThinMod: 512}
	sc.Body = func(x *Exec) {
		w := trackerWorld("mid")()
		g := newGen(I, 1024, 1)
		r := &rec{}
		r.hook(g)
		must(g.Attach(w.D))
		done, afterwards := false, 0
		do := func(c call) {
			if c.step > 0 {
				w.D.Next(c.step)
			} else {
				c.run(w)
			}
		}
		both := func(at string) {
			if at == in && !done {
				done = true
				do(a)
				do(b)
			}
			if done {
				afterwards++
			}
		}
		g.OnPacket(func(p []byte) { r.packet(p); both("packet") })
		g.OnError(func(e error) { r.err(e); both("error") })
		if in == "error" {
			w.D.SetDescription("\xff")
		}
		g.OnNext(func() { r.next(); both("next") })
		x.Spawn("run", r.run(g))
		x.SpawnLazy("driver", func() {
			time.Sleep(I * 5 / 2)
			vshim.HP(1)
			w.D.SetDescription("tail") // needs the tracker's lock
			if n := w.D.NumRoutes(); n < 0 {
				panic(n)
			}
			time.Sleep(I)
			vshim.HP(2)
			if !done || afterwards < 2 {
				x.Fail("stuck", "after %s; %s in the %s callback no tick was completed", a.name, b.name, in)
			}
			g.Close()
		})
		if !x.Drive() {
			return
		}
		for _, p := range r.problems {
			x.Fail("late-callback", "%s", p)
		}
		x.Label = fmt.Sprintf("afterwards=%d", afterwards)
	}
	return sc
}

func trackerCallsJob(in string, part, of int) Job {
	return Job{Name: fmt.Sprintf("tracker calls in %s callback, part %d", in, part), Variant: Sched, Run: func(j *J) {
		cs := trackerCalls()
		for i, a := range cs {
			if i%of != part {
				continue
			}
			for _, b := range cs {
				if in == "error" && (a.name == "MarshalBinary" || b.name == "MarshalBinary") {
					continue // its text cannot be encoded
				}
				j.Explore(trackerCallsScenario(in, a, b))
			}
		}
	}}
}

func c02Scenarios(tier string) (small, large []closeCfg) {
	I := 2 * time.Second
	th := tier == "thorough"
	pick := func(q, t int) int {
		if th {
			return t
		}
		return q
	}
	for _, n := range []int{0, 1, 3} {
		for _, w := range []int{1, 2} {
			for _, at := range []time.Duration{0, I / 2, I, 2 * I} {
				bb := 2
				if n == 1 && w == 1 && at > 0 {
					bb = pick(2, 3)
				}
				small = append(small, closeCfg{n: n, workers: w, packet: 1024, how: "driver", at: at, bound: bb})
				small = append(small, closeCfg{n: n, workers: w, packet: 1024, how: "driver", at: at, bound: pick(1, 2), eager: true})
			}
		}
	}
	for _, how := range []string{"twice", "before", "packet", "next"} {
		for _, n := range []int{0, 2} {
			if n == 0 && how == "packet" {
				continue // no packet, no Close
			}
			small = append(small, closeCfg{n: n, workers: 2, packet: 1024, how: how, at: I, bound: pick(1, 2)})
		}
	}
	small = append(small, closeCfg{n: 2, workers: 2, packet: 1024, how: "error", bad: true, bound: pick(1, 2)})
	small = append(small, closeCfg{n: 2, workers: 1, packet: 1024, how: "driver", at: I, bad: true, bound: 2})
	for _, cb := range []string{"read", "each", "attach", "detach", "device", "hook", "slow", "close"} {
		small = append(small, closeCfg{n: 2, workers: 2, packet: 1024, how: "driver", at: 2 * I, cb: cb, bound: pick(1, 2), routes: true})
		small = append(small, closeCfg{n: 1, workers: 1, packet: 1024, how: "driver", at: I, cb: cb, bound: 2})
		small = append(small, closeCfg{n: 1, workers: 2, packet: 1024, how: "driver", at: I, cb: cb, bad: true, bound: pick(1, 2)})
	}
	// callbacks slower than several ticks, closed before, while and after they run
	for _, in := range []string{"packet", "next", "error"} {
		for _, slow := range []time.Duration{I * 5 / 2, I * 9 / 2} {
			for _, at := range []time.Duration{I, 2 * I, 4 * I} {
				small = append(small, closeCfg{n: 1, workers: 1, packet: 1024, how: "driver", at: at, cb: "slow", who: in, slow: slow, bad: in == "error", bound: pick(1, 2)})
			}
		}
		small = append(small, closeCfg{n: 2, workers: 2, packet: 1024, how: "driver", at: 3 * I, cb: "slow", who: in, slow: I * 7 / 2, bad: in == "error", bound: 1, eager: true})
		small = append(small, closeCfg{n: 1, workers: 1, packet: 1024, how: in, cb: "slow", who: "next", slow: I * 7 / 2, bad: in == "error", bound: 1})
	}
	// other threads call the generator meanwhile
	for _, caller := range []string{"read", "each-calls", "each-edits", "attach", "detach", "device", "hooks", "close"} {
		for _, cb := range []string{"read", "each-calls", "attach"} {
			small = append(small, closeCfg{n: 1, workers: 1, packet: 1024, how: "driver", at: I, cb: cb, caller: caller, bound: pick(1, 2)})
		}
	}
	small = append(small, closeCfg{n: 2, workers: 2, packet: 1024, how: "driver", at: 2 * I, cb: "each-edits", bound: pick(1, 2)})
	small = append(small, closeCfg{n: 2, workers: 1, packet: 1024, how: "driver", at: 2 * I, cb: "each-edits", caller: "each-edits", bound: pick(1, 2)})
	for _, w := range []int{1, 2, 3} {
		for _, n := range []int{1023, 1024, 1025, 2048, 2049, 3100} {
			bb := pick(1, 2)
			if w == 1 && n == 2048 {
				bb = 2
			}
			large = append(large, closeCfg{n: n, workers: w, packet: 1024, how: "driver", at: I, bound: bb, thin: true})
			large = append(large, closeCfg{n: n, workers: w, packet: 1024, how: "driver", at: I, bound: 1, thin: true, eager: true})
		}
		large = append(large, closeCfg{n: 700, workers: w, packet: 1024, how: "driver", at: I, bound: pick(1, 2), thin: true})
		large = append(large, closeCfg{n: 700, workers: w, packet: 1024, how: "packet", bound: pick(1, 2), thin: true})
		large = append(large, closeCfg{n: 1030, workers: w, packet: 1024, how: "packet", bound: pick(1, 2), thin: true})
		// callbacks that call the generator while a tick of several packets is under way
		for _, cb := range []string{"attach", "detach", "read", "each-calls", "each-edits", "hooks"} {
			large = append(large, closeCfg{n: 1030, workers: w, packet: 1024, how: "driver", at: 2 * I, cb: cb, bound: pick(0, 1), thin: true})
		}
		large = append(large, closeCfg{n: 2060, workers: w, packet: 1024, how: "driver", at: 2 * I, cb: "attach", who: "error", bad: true, bound: pick(0, 1), thin: true})
		large = append(large, closeCfg{n: 1030, workers: w, packet: 1024, how: "driver", at: I, cb: "attach", caller: "attach", bound: 1, thin: true})
		large = append(large, closeCfg{n: 1030, workers: w, packet: 1024, how: "driver", at: I, cb: "slow", bound: pick(1, 2), thin: true})
	}
	return
}

func init() {
	register(&Check{
		ID: "C02", Level: "model_checking",
		Rule:        "an execution is one schedule of a closed driver (generator, trackers, callbacks, closer threads); non-trivial when its choice list differs from every other",
		Assumptions: []string{"scheduling points at every statement and lock operation of the generator; other code runs atomically between them", "fake clock: time advances only when nothing can run", "deviation bound as noted per scenario"},
		Jobs: func(tier string) []Job {
			small, large := c02Scenarios(tier)
			var jobs []Job
			for _, c := range small {
				sc := closeScenario(c)
				jobs = append(jobs, Job{Name: sc.Name, Variant: Sched, Shards: 2, Run: func(j *J) { j.Explore(sc) }})
			}
			for _, c := range large {
				sc := closeScenario(c)
				jobs = append(jobs, Job{Name: sc.Name, Variant: Sched, Shards: 4, Run: func(j *J) { j.Explore(sc) }})
			}
			for _, phase := range []string{"before Run", "between ticks", "in a callback"} {
				for n := 0; n < 2; n++ {
					for part := 0; part < 2; part++ {
						jobs = append(jobs, callsJob(phase, n, part, 2))
					}
				}
			}
			for _, in := range []string{"packet", "next", "error"} {
				for part := 0; part < 4; part++ {
					jobs = append(jobs, trackerCallsJob(in, part, 4))
				}
			}
			return jobs
		},
	})
}
