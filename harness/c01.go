package harness

import (
	"fmt"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/vshim"
	"google.golang.org/protobuf/proto"
)

// ---- counts: every tracker count of a window, all worker counts, packet sizes ----

func countWindows(packet, workers int, thorough bool) []int {
	ws := packet / workers
	in := map[int]bool{}
	add := func(c, r int) {
		for n := c - r; n <= c+r; n++ {
			if n >= 0 && n <= 3*packet+8 {
				in[n] = true
			}
		}
	}
	max := 3*packet + 8
	if thorough {
		if packet > 1024 {
			max = 2*packet + 8
		}
		for n := 0; n <= max; n++ {
			in[n] = true
		}
	} else {
		add(6, 6)
		add(workers, 2)
		add(ws+workers, 2)
		add(ws, 1)
		add(2*ws, 1)
		add(packet+ws+workers, 1)
		for k := 1; k <= 3; k++ {
			add(k*packet, 3)
		}
		for n := 50; n < packet; n += packet / 9 {
			in[n] = true
		}
	}
	var out []int
	for n := 0; n <= max; n++ {
		if in[n] {
			out = append(out, n)
		}
	}
	return out
}

const countI = 2 * time.Second

type countRun struct {
	packet, workers int
	pool            []*gpsgen.Device
	steps           []int // steps made by each pool member
}

func (c *countRun) name() string {
	return fmt.Sprintf("counts packet=%d workers=%d", c.packet, c.workers)
}

func (c *countRun) device(i int) *gpsgen.Device {
	for len(c.pool) <= i {
		d := newDev(fmt.Sprintf("t%d", len(c.pool)), skipOff, static(1))
		must(d.AddRoute(countRoute))
		c.pool = append(c.pool, d)
		c.steps = append(c.steps, 0)
	}
	return c.pool[i]
}

var countRoute = route(lineTrack(10.5, 20.5, 100000))

// runCounts grows and shrinks the set of trackers and checks one tick at every size.
func (c *countRun) run(j *J, ns []int) {
	synctest.Test(j.T, func(t *testing.T) {
		g := newGen(countI, c.packet, c.workers)
		r := &rec{}
		r.hook(g)
		go g.Run()
		synctest.Wait()
		var attached []int // pool indices in attach order
		free := []int{}
		tick := func(what string) bool {
			cs := fmt.Sprintf("%s trackers=%d (%s)", c.name(), len(attached), what)
			j.Case(cs)
			j.Eval()
			j.State()
			r.lock()
			r.packets, r.errs, r.problems, r.nexts = nil, nil, nil, 0
			r.unlock()
			time.Sleep(countI)
			synctest.Wait()
			for _, i := range attached {
				c.steps[i]++
			}
			r.lock()
			defer r.unlock()
			if len(r.errs) > 0 {
				j.Fail("counts/error", cs, "error callback: %v", r.errs)
				return false
			}
			recs, bad := r.decode()
			if bad != "" {
				j.Fail("counts/blank", cs, "%s", bad)
				return false
			}
			j.res.Transitions += int64(len(recs))
			seen := make(map[string]int, len(recs))
			for _, d := range recs {
				seen[d.Id]++
			}
			for k, i := range attached {
				d := c.pool[i]
				id := fmt.Sprintf("t%d", i)
				if seen[id] != 1 {
					j.Fail("counts/delivery", cs, "tracker at position %d of %d (%s) was delivered %d times in one tick; %d records in %d packets",
						k, len(attached), id, seen[id], len(recs), len(r.packets))
					return false
				}
				delete(seen, id)
				want := float64(c.steps[i]) * countI.Seconds()
				_ = d
				_ = want
			}
			if len(seen) > 0 {
				j.Fail("counts/detached", cs, "trackers that are not attached were delivered: %v", seen)
				return false
			}
			for _, d := range recs {
				var i int
				fmt.Sscanf(d.Id, "t%d", &i)
				want := float64(c.steps[i]) * countI.Seconds()
				if d.Duration != want {
					j.Fail("counts/stale", cs, "tracker %s was delivered with duration %v, its state after this tick's step has %v", d.Id, d.Duration, want)
					return false
				}
				if len(recs) < 60 || i%97 == 0 {
					if st := c.pool[i].State(); !proto.Equal(st, d) {
						j.Fail("counts/state", cs, "tracker %s: delivered record differs from its state after the step:\n%v\n%v", d.Id, d, st)
						return false
					}
				}
			}
			if len(attached) > 0 && r.nexts != 1 {
				j.Fail("counts/next", cs, "%d next-step notifications for one tick", r.nexts)
				return false
			}
			j.Trace()
			return true
		}
		defer func() {
			g.Close()
			synctest.Wait()
			for _, i := range attached {
				must(g.Detach(fmt.Sprintf("t%d", i)))
			}
		}()
		used := 0
		for _, n := range ns {
			for len(attached) < n {
				var i int
				if len(free) > 0 {
					i = free[0]
					free = free[1:]
				} else {
					i = used
					used++
				}
				must(g.Attach(c.device(i)))
				attached = append(attached, i)
			}
			if !tick("growing") || j.Expired("tracker counts") {
				return
			}
		}
		// shrink: detach from the front, the middle and the back
		for k := 0; len(attached) > 0; k++ {
			drop := 1
			if len(attached) > 12 {
				drop = 1 + len(attached)/6
			}
			for q := 0; q < drop && len(attached) > 0; q++ {
				at := [3]int{0, len(attached) / 2, len(attached) - 1}[(k+q)%3]
				i := attached[at]
				must(g.Detach(fmt.Sprintf("t%d", i)))
				attached = append(attached[:at:at], attached[at+1:]...)
				free = append(free, i)
			}
			if !tick("shrinking") || j.Expired("tracker counts") {
				return
			}
		}
	})
}

// ---- schedules: attach/detach while a tick is under way ----

type churnCfg struct {
	n, workers int
	ops        []string // each "attach", "detach:<i>", "reattach:<i>", "lookup", one lazy thread each
	cb         string   // operation made from inside the packet callback
	bound      int
	thin       bool
	eager      bool
}

func (c churnCfg) name() string {
	s := fmt.Sprintf("churn n=%d w=%d ops=%s cb=%s", c.n, c.workers, strings.Join(c.ops, "+"), c.cb)
	if c.eager {
		s += " eager"
	}
	return s
}

func churnScenario(c churnCfg) *Scenario {
	I := 2 * time.Second
	sc := &Scenario{Name: c.name(), Bound: c.bound}
	sc.Cfg = vshim.Config{Quantum: I / 4, MaxIdle: 40, Classes: ptsRoot, Horizon: 20000, Thin: 6, ThinMod: 512}
	if c.thin {
		sc.Cfg.Thin, sc.Cfg.ThinMod, sc.Cfg.QuietLocks, sc.Cfg.Horizon = 3, 512, true, 400000
	}
	sc.Body = func(x *Exec) {
		g := newGen(I, 1024, c.workers)
		r := &rec{}
		r.hook(g)
		var devs []*gpsgen.Device
		for i := 0; i < c.n; i++ {
			d := newDev(fmt.Sprintf("d%d", i), skipOff, static(1))
			must(d.AddRoute(countRoute))
			devs = append(devs, d)
			must(g.Attach(d))
		}
		touched := map[string]bool{}
		busy := false
		do := func(k int, op string) {
			kind, arg, _ := strings.Cut(op, ":")
			var at int
			fmt.Sscanf(arg, "%d", &at)
			id := fmt.Sprintf("d%d", at)
			switch kind {
			case "attach":
				d := newDev(fmt.Sprintf("new%d", k), skipOff, static(1))
				must(d.AddRoute(countRoute))
				if err := g.Attach(d); err != nil {
					x.Fail("attach", "attaching a fresh tracker failed: %v", err)
				}
			case "detach":
				if err := g.Detach(id); err != nil {
					x.Fail("detach", "detaching %s failed: %v", id, err)
				}
			case "reattach":
				if err := g.Detach(id); err != nil {
					x.Fail("detach", "detaching %s failed: %v", id, err)
				}
				if err := g.Attach(devs[at]); err != nil {
					x.Fail("attach", "re-attaching %s failed: %v", id, err)
				}
			case "lookup":
				g.Lookup("d1")
				g.HasTracker("d0")
				g.NumDevices()
				g.Each(func(int, *gpsgen.Device) bool { return true })
			}
		}
		mark := func(op string) {
			kind, arg, _ := strings.Cut(op, ":")
			switch kind {
			case "detach", "reattach":
				touched["d"+arg] = true
			case "lookup":
				busy = true
			}
		}
		for k, op := range c.ops {
			k, op := k, op
			mark(op)
			spawn := x.SpawnLazy
			if c.eager {
				spawn = x.Spawn
			}
			spawn("op"+op, func() { time.Sleep(I); vshim.HP(10 + k); do(k, op) })
		}
		if c.cb != "" {
			mark(c.cb)
			first := true
			g.OnPacket(func(b []byte) {
				r.packet(b)
				r.lock()
				f := first
				first = false
				r.unlock()
				if f {
					do(90, c.cb)
				}
			})
		}
		x.Spawn("run", r.run(g))
		x.SpawnLazy("closer", func() { time.Sleep(I*2 + I/2); vshim.HP(1); g.Close() })
		if !x.Drive() {
			return
		}
		recs, bad := r.decode()
		if bad != "" {
			x.Fail("blank", "%s", bad)
			return
		}
		seen := map[string][]float64{}
		for _, d := range recs {
			seen[d.Id] = append(seen[d.Id], d.Duration)
		}
		missing := 0
		for i := 0; i < c.n; i++ {
			id := fmt.Sprintf("d%d", i)
			s := seen[id]
			if touched[id] {
				if len(s) > 2 {
					x.Fail("delivered-twice", "tracker %s was delivered with durations %v in two ticks", id, s)
					return
				}
				continue
			}
			okay := len(s) == 2
			if okay && !busy {
				okay = (s[0] == 2 && s[1] == 4) || (s[0] == 4 && s[1] == 2)
			}
			if !okay {
				missing++
				if missing == 1 {
					x.Fail("lost-or-duplicated", "tracker %s stayed attached for both ticks but was delivered with durations %v, want one record per tick [2 4]", id, s)
				}
			}
		}
		for id, s := range seen {
			if strings.HasPrefix(id, "new") {
				// attached during tick 1 (or before it): tick 2 must have it, tick 1 may
				if len(s) < 1 || len(s) > 2 {
					x.Fail("new-delivery", "tracker %s attached during the first tick was delivered %d times in two ticks", id, len(s))
				}
			}
		}
		for k, op := range c.ops {
			switch {
			case op == "attach" && len(seen[fmt.Sprintf("new%d", k)]) == 0:
				x.Fail("new-missing", "a tracker attached during the first tick was not delivered in the second")
			case strings.HasPrefix(op, "detach:"):
				id := "d" + op[len("detach:"):]
				if len(seen[id]) > 1 {
					x.Fail("detached-delivered", "tracker %s was detached before the second tick but delivered with durations %v", id, seen[id])
				}
			case strings.HasPrefix(op, "reattach:"):
				id := "d" + op[len("reattach:"):]
				if len(seen[id]) < 1 {
					x.Fail("reattached-missing", "tracker %s, re-attached before the second tick, was not delivered in it", id)
				}
			}
		}
		x.Label = fmt.Sprintf("packets=%d records=%d", len(r.packets), len(recs))
	}
	return sc
}

func churnConfigs(tier string) (out []churnCfg) {
	th := tier == "thorough"
	pick := func(q, t int) int {
		if th {
			return t
		}
		return q
	}
	small := [][]string{{"attach"}, {"detach:0"}, {"detach:1"}, {"detach:2"}, {"reattach:0"}, {"reattach:2"}, {"lookup"},
		{"attach", "detach:1"}, {"detach:0", "detach:2"}, {"attach", "lookup"}}
	for _, ops := range small {
		for _, w := range []int{1, 2} {
			b := pick(1, 2)
			if w == 1 && len(ops) == 1 {
				b = 2
			}
			out = append(out, churnCfg{n: 3, workers: w, ops: ops, bound: b})
		}
	}
	for _, cb := range []string{"attach", "detach:0", "detach:2", "reattach:1", "lookup"} {
		out = append(out, churnCfg{n: 3, workers: 2, cb: cb, bound: pick(1, 2)})
		for _, w := range []int{1, 3} {
			if w == 3 && !th && cb != "detach:0" {
				continue
			}
			out = append(out, churnCfg{n: 1030, workers: w, cb: cb, bound: 1, thin: true})
		}
	}
	for _, w := range []int{1, 2, 3} {
		if w == 2 && !th {
			continue
		}
		for _, ops := range [][]string{{"attach"}, {"detach:0"}, {"detach:1023"}, {"detach:1024"}, {"detach:1027"}, {"reattach:5"}, {"reattach:1026"}, {"detach:0", "attach"}} {
			if w == 3 && !th && ops[0] != "detach:0" && ops[0] != "attach" {
				continue
			}
			out = append(out, churnCfg{n: 1028, workers: w, ops: ops, bound: pick(1, 2), thin: true})
		}
		if w == 1 || th {
			out = append(out, churnCfg{n: 2050, workers: w, ops: []string{"detach:1500"}, bound: 1, thin: true})
		}
		out = append(out, churnCfg{n: 700, workers: w, ops: []string{"detach:1"}, bound: 1, thin: true})
		if w == 3 && !th {
			continue
		}
		out = append(out, churnCfg{n: 1024, workers: w, ops: []string{"attach"}, bound: 1, thin: true})
		out = append(out, churnCfg{n: 1025, workers: w, ops: []string{"detach:1024"}, bound: 1, thin: true})
	}
	return
}

func init() {
	register(&Check{
		ID: "C01", Level: "model_checking",
		Rule: "one evaluation = one tick at one tracker count (counts jobs) or one complete schedule of two ticks with concurrent attach/detach (churn jobs); state = configuration checked or scheduling point visited, transition = record delivered or scheduling step",
		Assumptions: []string{"fake clock: a tick arrives exactly every interval, callbacks of the counts jobs take no time",
			"churn jobs: scheduling points at every statement of the generator (thinned inside loops over trackers: first 3-6 iterations and those around multiples of 512)"},
		Jobs: func(tier string) []Job {
			var jobs []Job
			th := tier == "thorough"
			ws := []int{1, 2, 3, 4, 5, 7, 8, 16, 31, 100, 1023, 1024, 1025, 3000}
			for _, p := range []int{1024, 1025, 1500, 2048, 8192} {
				for _, w := range ws {
					if !th && ((p == 1025 || p == 1500) && w != 1 && w != 3 && w != 7 || p == 2048 && w != 1 && w != 2 && w != 8 && w != 1024 || p == 8192 && w != 4) {
						continue
					}
					if th && p > 1025 && w > 16 {
						continue
					}
					p, w := p, w
					sh := 1
					if th {
						sh = 8
					}
					c := &countRun{packet: p, workers: w}
					jobs = append(jobs, Job{Name: c.name(), Variant: Plain, Shards: sh, Run: func(j *J) {
						c := &countRun{packet: p, workers: w}
						ns := countWindows(p, w, j.Thorough())
						lo, hi := len(ns)*j.Shard/max(1, j.Shards), len(ns)*(j.Shard+1)/max(1, j.Shards)
						c.run(j, ns[lo:hi])
						j.Sample(fmt.Sprintf("%s: counts %v..%v (%d values)", c.name(), ns[lo], ns[hi-1], hi-lo))
					}})
				}
			}
			jobs = append(jobs, kindJobs(tier)...)
			jobs = append(jobs, changesJob("C01", 4, 1, 8), changesJob("C01", pick(tier, 3, 4), 3, pick(tier, 2, 8)))
			for _, c := range churnConfigs(tier) {
				sc := churnScenario(c)
				sh := 1
				if c.thin && c.bound > 1 {
					sh = 8
				} else if c.thin || c.bound > 1 {
					sh = 2
				}
				jobs = append(jobs, Job{Name: sc.Name, Variant: Sched, Shards: sh, Run: func(j *J) { j.Explore(sc) }})
			}
			return jobs
		},
	})
}
