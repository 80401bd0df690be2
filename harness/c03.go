package harness

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/types"
	"github.com/mmadfox/go-gpsgen/vshim"
)

const badText = "\xff\xfe" // cannot be encoded

// kept packets: the slice the callback got, and what it held then.
type keptPackets struct {
	rec
	raw [][]byte
}

func (k *keptPackets) take(b []byte) {
	k.packet(b)
	k.lock()
	k.raw = append(k.raw, b)
	k.unlock()
}

func (k *keptPackets) altered() string {
	for i := range k.raw {
		if string(k.raw[i]) != string(k.packets[i]) {
			return fmt.Sprintf("the bytes of packet %d were altered after the packet callback got them", i)
		}
	}
	return ""
}

// editCalls are the tracker calls made beside the generator's ticks.
func editCalls() []call {
	out := trackerCalls()
	wr := func(name string, f func(w *cworld)) {
		out = append(out, call{name: name, write: true, run: func(w *cworld) (string, func() string) { f(w); return "", nil }})
	}
	wr("m1", func(w *cworld) { _ = w.D.SetModel("model-m1") })
	wr("m2", func(w *cworld) { _ = w.D.SetModel("model-m2") })
	wr("d1", func(w *cworld) { w.D.SetDescription("descr-d1") })
	wr("d2", func(w *cworld) { w.D.SetDescription("descr-d2") })
	wr("u1", func(w *cworld) { _ = w.D.SetUserID("user-u1") })
	wr("bad", func(w *cworld) { w.D.SetDescription(badText) })
	wr("good", func(w *cworld) { w.D.SetDescription("good again") })
	wr("hold", func(w *cworld) {
		w.D.EachRoute(func(int, *navigator.Route) bool { vshim.HP(40); vshim.HP(41); return false })
		w.D.EachSensor(func(int, *types.Sensor) bool { vshim.HP(42); return false })
	})
	return out
}

type wholeCase struct {
	kind    string
	threads [][]string
	others  int // trackers besides the edited one
	workers int
	ticks   int
	bound   int
	eager   bool
	classes uint32
}

func (c wholeCase) name(variant string) string {
	var parts []string
	for _, t := range c.threads {
		parts = append(parts, strings.Join(t, "; "))
	}
	s := fmt.Sprintf("C03 edits %s others=%d w=%d ticks=%d %s", c.kind, c.others, c.workers, c.ticks, strings.Join(parts, " || "))
	if c.eager {
		s += " eager"
	}
	if variant == Race {
		s = "C03 race" + s[3:]
	}
	return s
}

const wholeI = 2 * time.Second

// allowed are all states the edited tracker can really have: after every
// prefix of every order of the edits and the ticks' steps, a step that can
// have met an edit possibly skipped.
func (c wholeCase) allowed(all []call) map[string]string {
	var threads [][]call
	for _, t := range c.threads {
		var cs []call
		for _, n := range t {
			cs = append(cs, callNamed(all, n))
		}
		threads = append(threads, cs)
	}
	var ticks []call
	for i := 0; i < c.ticks; i++ {
		ticks = append(ticks, call{name: "tick", write: true, step: wholeI.Seconds()})
	}
	threads = append(threads, ticks)
	out := map[string]string{}
	type mv struct {
		t    int
		skip bool
	}
	var path []mv
	at := make([]int, len(threads))
	var rec func()
	rec = func() {
		resetWorld()
		w := trackerWorld(c.kind)()
		w.seq = true
		must(newGen(wholeI, 1024, 1).Attach(w.D))
		pos := make([]int, len(threads))
		desc := ""
		for _, m := range path {
			x := threads[m.t][pos[m.t]]
			pos[m.t]++
			w.apply(x, m.skip)
			desc += " " + x.name
			if m.skip {
				desc += " skipped"
			}
		}
		s := canon(w.D.State())
		if _, ok := out[s]; !ok {
			out[s] = strings.TrimSpace(desc)
		}
		for t := range threads {
			if at[t] == len(threads[t]) {
				continue
			}
			at[t]++
			path = append(path, mv{t, false})
			rec()
			if threads[t][at[t]-1].step > 0 {
				path[len(path)-1].skip = true
				rec()
			}
			path = path[:len(path)-1]
			at[t]--
		}
	}
	rec()
	return out
}

func (c wholeCase) scenario(variant string) *Scenario {
	sc := &Scenario{Name: c.name(variant), Bound: c.bound}
	cl := c.classes
	if cl == 0 {
		cl = ptsRoot | ptsDevice
	}
	sc.Cfg = vshim.Config{Quantum: wholeI / 4, MaxIdle: 40, Classes: cl, Horizon: 40000, Thin: 4, ThinMod: 512}
	var ok map[string]string
	sc.Body = func(x *Exec) {
		all := editCalls()
		if ok == nil {
			ok = c.allowed(all)
			resetWorld()
		}
		w := trackerWorld(c.kind)()
		g := newGen(wholeI, 1024, c.workers)
		r := &keptPackets{}
		r.hook(g)
		g.OnPacket(r.take)
		must(g.Attach(w.D))
		for i := 0; i < c.others; i++ {
			d := newDev(fmt.Sprintf("other%d", i), skipOff, static(1))
			must(d.AddRoute(longRoute()))
			must(g.Attach(d))
		}
		bad := false
		for k, t := range c.threads {
			k, t := k, t
			spawn := x.SpawnLazy
			if c.eager {
				spawn = x.Spawn
			}
			for _, n := range t {
				if n == "bad" {
					bad = true
				}
			}
			spawn(fmt.Sprintf("edit%d", k), func() {
				time.Sleep(wholeI)
				vshim.HP(10 + k)
				for _, n := range t {
					cl := callNamed(all, n)
					if cl.step > 0 {
						w.D.Next(cl.step)
					} else {
						cl.run(w)
					}
				}
			})
		}
		x.Spawn("run", r.run(g))
		x.SpawnLazy("closer", func() { time.Sleep(time.Duration(c.ticks)*wholeI + wholeI/2); vshim.HP(1); g.Close() })
		if !x.Drive() {
			return
		}
		if len(r.errs) > 0 && !bad {
			x.Fail("error", "error callback: %v", r.errs)
			return
		}
		if a := r.altered(); a != "" {
			x.Fail("altered", "%s", a)
			return
		}
		recs, b := r.decode()
		if b != "" {
			x.Fail("blank", "%s", b)
			return
		}
		lab := fmt.Sprintf("errors %d:", len(r.errs))
		for _, d := range recs {
			if strings.HasPrefix(d.Id, "other") {
				continue
			}
			how, is := ok[canon(d)]
			if !is {
				x.Fail("mixed", "a packet has a record that is no state tracker d0 has in any order of the edits and steps (%d states): %v", len(ok), d)
				return
			}
			lab += " {" + how + "}"
		}
		if !bad && len(r.packets) != c.ticks || bad && len(r.packets)+len(r.errs) != c.ticks {
			x.Fail("packets", "%d packets and %d errors in %d ticks", len(r.packets), len(r.errs), c.ticks)
		}
		x.Label = lab
	}
	return sc
}

// ---- closing ----

type wholeClose struct {
	n, workers int
	how        string // "driver", "packet", "error", "twice"
	at         time.Duration
	bad        []int
	bound      int
	thin       bool
	eager      bool
	slow       bool // a packet callback that takes longer than a tick
}

func (c wholeClose) name() string {
	return fmt.Sprintf("C03 close n=%d w=%d %s at=%v bad=%v eager=%v slow=%v", c.n, c.workers, c.how, c.at, c.bad, c.eager, c.slow)
}

// stepStates are the states of a tracker of the closing scenarios after each step, without its id.
func stepStates(n int) map[string]int {
	resetWorld()
	d := newDev("x", skipOff, static(1))
	must(d.AddRoute(countRoute))
	out := map[string]int{}
	for i := 0; i <= n; i++ {
		s := d.State()
		s.Id = ""
		out[canon(s)] = i
		d.Next(wholeI.Seconds())
	}
	return out
}

func (c wholeClose) scenario() *Scenario {
	sc := &Scenario{Name: c.name(), Bound: c.bound}
	sc.Cfg = vshim.Config{Quantum: wholeI / 4, MaxIdle: 40, Classes: ptsRoot, Horizon: 8000, Thin: 6, ThinMod: 512}
	if c.thin {
		sc.Cfg.Thin, sc.Cfg.ThinMod, sc.Cfg.QuietLocks, sc.Cfg.Horizon = 3, 512, true, 400000
	}
	var ok map[string]int
	sc.Body = func(x *Exec) {
		if ok == nil {
			ok = stepStates(4)
			resetWorld()
		}
		g := newGen(wholeI, 1024, c.workers)
		r := &keptPackets{}
		r.hook(g)
		g.OnPacket(func(b []byte) {
			r.take(b)
			if c.how == "packet" {
				g.Close()
			}
			if c.slow {
				time.Sleep(wholeI * 5 / 4)
				vshim.HP(3)
			}
		})
		g.OnError(func(e error) {
			r.err(e)
			if c.how == "error" {
				g.Close()
			}
		})
		isBad := map[string]bool{}
		for i := 0; i < c.n; i++ {
			d := newDev(fmt.Sprintf("d%d", i), skipOff, static(1))
			must(d.AddRoute(countRoute))
			for _, b := range c.bad {
				if b == i {
					d.SetDescription(badText)
					isBad[d.ID()] = true
				}
			}
			must(g.Attach(d))
		}
		x.Spawn("run", r.run(g))
		spawn := x.SpawnLazy
		if c.eager {
			spawn = x.Spawn
		}
		if c.how == "driver" || c.how == "twice" || c.how == "error" && len(c.bad) == 0 {
			spawn("closer", func() {
				time.Sleep(c.at)
				vshim.HP(1)
				g.Close()
				if c.how == "twice" {
					g.Close()
				}
			})
		}
		if !x.Drive() {
			return
		}
		if a := r.altered(); a != "" {
			x.Fail("altered", "%s", a)
			return
		}
		if len(r.errs) > 0 && len(c.bad) == 0 {
			x.Fail("error", "error callback: %v", r.errs)
			return
		}
		recs, b := r.decode()
		if b != "" {
			x.Fail("blank", "%s", b)
			return
		}
		seen := map[string]bool{}
		for _, d := range recs {
			id := d.Id
			if isBad[id] {
				x.Fail("bad-delivered", "tracker %s cannot be encoded but was delivered: %v", id, d)
				return
			}
			d.Id = ""
			k, is := ok[canon(d)]
			if !is || k == 0 {
				x.Fail("mixed", "a packet has a record that tracker %s never had after a step: %v", id, d)
				return
			}
			if key := fmt.Sprint(id, k); seen[key] {
				x.Fail("twice", "tracker %s was delivered twice after %d steps", id, k)
				return
			} else {
				seen[key] = true
			}
		}
		x.Label = fmt.Sprintf("packets=%d records=%d errors=%d", len(r.packets), len(recs), len(r.errs))
	}
	return sc
}

// ---- packets that cannot be encoded ----

func packetIDs(t *testing.T, b []byte) string {
	p, err := gpsgen.PacketFromBytes(b)
	if err != nil {
		return "does not decode: " + err.Error()
	}
	var ids []string
	for _, d := range p.Devices {
		if d == nil || d.Id == "" {
			return "blank record"
		}
		ids = append(ids, d.Id)
	}
	sort.Strings(ids)
	return strings.Join(ids, " ")
}

// badPositionsJob: every set of positions of trackers that cannot be encoded.
func badPositionsJob(n, workers, packet int, single bool) Job {
	name := fmt.Sprintf("C03 unencodable n=%d w=%d packet=%d", n, workers, packet)
	return Job{Name: name, Variant: Sched, Run: func(j *J) {
		synctest.Test(j.T, func(t *testing.T) {
			resetWorld()
			g := newGen(wholeI, packet, workers)
			r := &keptPackets{}
			r.hook(g)
			g.OnPacket(r.take)
			onError := func(e error) {
				if e == nil {
					r.problem("error callback without an error")
					return
				}
				r.err(e)
			}
			g.OnError(onError)
			var devs []*gpsgen.Device
			for i := 0; i < n; i++ {
				d := newDev(fmt.Sprintf("t%04d", i), skipOff, static(1))
				must(d.AddRoute(countRoute))
				must(g.Attach(d))
				devs = append(devs, d)
			}
			go g.Run()
			synctest.Wait()
			tick := func() (parts []string, errs int) {
				r.lock()
				r.packets, r.raw, r.errs, r.problems = nil, nil, nil, nil
				r.unlock()
				time.Sleep(wholeI)
				synctest.Wait()
				r.lock()
				defer r.unlock()
				for _, b := range r.packets {
					parts = append(parts, packetIDs(t, b))
				}
				sort.Strings(parts)
				return parts, len(r.errs)
			}
			ref, errs := tick()
			if errs != 0 {
				j.Fail(name+"/error", name, "error callback on a good tick: %v", r.errs)
			}
			defer func() {
				g.Close()
				synctest.Wait()
			}()
			// the sets of positions
			var sets [][]int
			if !single {
				for m := 1; m < 1<<n; m++ {
					var s []int
					for i := 0; i < n; i++ {
						if m>>i&1 == 1 {
							s = append(s, i)
						}
					}
					sets = append(sets, s)
				}
			} else {
				at := map[int]bool{0: true, n - 1: true, n / 2: true}
				for _, p := range ref { // around the packets' boundaries
					ids := strings.Fields(p)
					for _, id := range []string{ids[0], ids[len(ids)-1]} {
						var k int
						fmt.Sscanf(id, "t%d", &k)
						for q := k - 1; q <= k+1; q++ {
							if q >= 0 && q < n {
								at[q] = true
							}
						}
					}
				}
				var l []int
				for k := range at {
					l = append(l, k)
				}
				sort.Ints(l)
				for i, a := range l {
					sets = append(sets, []int{a})
					if i > 0 {
						sets = append(sets, []int{l[i-1], a})
					}
				}
				sets = append(sets, l)
				all := make([]int, n)
				for i := range all {
					all[i] = i
				}
				sets = append(sets, all)
			}
			for k, s := range sets {
				for _, mode := range []string{"description", "user", "no error callback", "no packet callback"} {
					if single && mode != "description" && k%4 != 0 {
						continue
					}
					cs := fmt.Sprintf("%s positions %v %s", name, s, mode)
					if len(s) > 20 {
						cs = fmt.Sprintf("%s all %d positions %s", name, len(s), mode)
					}
					j.Case(cs)
					j.Eval()
					j.State()
					j.Distinct(cs)
					if j.Expired(name) {
						return
					}
					for _, i := range s {
						if mode == "user" {
							must(devs[i].SetUserID(badText))
						} else {
							devs[i].SetDescription(badText)
						}
					}
					if mode == "no error callback" {
						g.OnError(nil)
					}
					if mode == "no packet callback" {
						g.OnPacket(nil)
					}
					var want []string
					wantErrs := 0
					for _, p := range ref {
						hit := false
						for _, i := range s {
							if strings.Contains(p, fmt.Sprintf("t%04d", i)) {
								hit = true
							}
						}
						if hit {
							wantErrs++
						} else if mode != "no packet callback" {
							want = append(want, p)
						}
					}
					if mode == "no error callback" {
						wantErrs = 0
					}
					got, errs := tick()
					j.Transition()
					if errs != wantErrs || strings.Join(got, "|") != strings.Join(want, "|") || len(r.problems) > 0 {
						j.Fail(name+"/bad", cs, "%d errors and packets of %s, want %d errors and packets of %s; %v", errs, sizes(got), wantErrs, sizes(want), r.problems)
					}
					g.OnError(onError)
					g.OnPacket(r.take)
					for _, i := range s {
						devs[i].SetDescription("")
						must(devs[i].SetUserID(""))
					}
					got, errs = tick()
					j.Transition()
					if errs != 0 || strings.Join(got, "|") != strings.Join(ref, "|") {
						j.Fail(name+"/after", cs, "in the tick after, with everything encodable again: %d errors and packets of %s, want %s", errs, sizes(got), sizes(ref))
					}
					j.Trace()
				}
			}
			j.Sample(fmt.Sprintf("%s: %d sets of positions", name, len(sets)))
		})
	}}
}

func sizes(parts []string) string {
	var s []string
	for _, p := range parts {
		f := strings.Fields(p)
		if len(f) > 0 && len(f) < 6 {
			s = append(s, "["+p+"]")
		} else {
			s = append(s, fmt.Sprintf("[%d trackers]", len(f)))
		}
	}
	return strings.Join(s, " ")
}

func init() {
	register(&Check{ID: "C03", Level: "model_checking",
		Rule:        "an execution is one schedule of a running generator beside threads that edit a tracker (records must be states the tracker has in some order of the edits and steps) or close the generator (records must be states after a step), or one tick with a set of trackers that cannot be encoded; packets are read again at the end",
		Assumptions: []string{"scheduling points at every statement and lock operation of the generator and the trackers; other packages run atomically between them", "fake clock", "random draws fixed", "a record that cannot be encoded is one with text that is not UTF-8", "race detection covers the explored schedules"},
		Jobs: func(tier string) []Job {
			th := tier == "thorough"
			var jobs []Job
			edits := [][][]string{
				{{"m1", "d1", "u1", "m2", "d2"}},
				{{"m1", "d1", "m2"}, {"u1"}},
				{{"Next(0.5)", "m1"}},
				{{"Next(2)"}, {"d1"}},
				{{"AddRoute(#2)", "MoveToRoute(1)"}},
				{{"RemoveRoute(#0)", "AddRoute(#0)"}},
				{{"RemoveSensor(#0)", "AddSensor(#2)"}},
				{{"ResetSensors"}, {"m1"}},
				{{"UnmarshalBinary(other)"}},
				{{"UnmarshalBinary(earlier)", "m1"}},
				{{"FromSnapshot"}},
				{{"ToOffline", "Update"}},
				{{"MoveToSegment(0,1,1)", "Update"}},
				{{"ResetNavigator", "Update"}},
				{{"DestinationTo(30)"}, {"Snapshot"}},
				{{"hold", "m1"}},
				{{"State", "m1"}, {"Snapshot", "d1"}},
				{{"bad", "good"}},
				{{"m1", "bad"}, {"Next(0.5)"}},
				{{"RemoveTrack(#0,1)", "Update"}},
				{{"ResetRoutes"}},
				{{"SetColor", "SetModel", "SetUserID", "SetDescription"}},
			}
			for i, e := range edits {
				for _, eager := range []bool{false, true} {
					b := pick(tier, 1, 2)
					if len(e) == 1 && !eager && i < 4 {
						b = 2
					}
					c := wholeCase{kind: "mid", threads: e, others: i % 2, workers: 1 + i%2, ticks: 2, bound: b, eager: eager}
					sc := c.scenario(Sched)
					jobs = append(jobs, Job{Name: sc.Name, Variant: Sched, Shards: pick(tier, 2, 8), Run: func(j *J) { j.Explore(sc) }})
					if th || eager {
						c.bound = pick(tier, 0, 1)
						rc := c.scenario(Race)
						jobs = append(jobs, Job{Name: rc.Name, Variant: Race, Run: func(j *J) { j.Explore(rc) }})
					}
				}
				if th || i%3 == 0 {
					for _, kind := range []string{"end", "offline", "empty"} {
						if kind == "empty" && (e[0][0] == "hold" || i == 18) {
							continue
						}
						c := wholeCase{kind: kind, threads: e, others: 1, workers: 2, ticks: 2, bound: 1, eager: true}
						sc := c.scenario(Sched)
						jobs = append(jobs, Job{Name: sc.Name, Variant: Sched, Shards: 2, Run: func(j *J) { j.Explore(sc) }})
					}
				}
			}
			I := wholeI
			var closes []wholeClose
			for _, n := range []int{1, 3} {
				for _, w := range []int{1, 2, 3} {
					for _, eager := range []bool{false, true} {
						b := pick(tier, 1, 2)
						if w == 1 {
							b = pick(tier, 2, 3)
						}
						closes = append(closes, wholeClose{n: n, workers: w, how: "driver", at: I, bound: b, eager: eager},
							wholeClose{n: n, workers: w, how: "driver", at: 2 * I, bound: b - 1, eager: eager, slow: true},
							wholeClose{n: n, workers: w, how: "driver", at: I, bad: []int{0}, bound: b, eager: eager})
					}
					closes = append(closes, wholeClose{n: n, workers: w, how: "packet", bound: 1}, wholeClose{n: n, workers: w, how: "error", bad: []int{n - 1}, bound: 1})
				}
			}
			for _, w := range []int{1, 2, 3} {
				for _, n := range []int{700, 1024, 1030, 2050} {
					if n == 700 && w == 1 {
						continue
					}
					for _, eager := range []bool{false, true} {
						closes = append(closes, wholeClose{n: n, workers: w, how: "driver", at: I, bound: pick(tier, 1, 2), eager: eager, thin: true})
					}
					closes = append(closes, wholeClose{n: n, workers: w, how: "packet", bound: pick(tier, 1, 2), thin: true})
					if w > 1 {
						closes = append(closes, wholeClose{n: n, workers: w, how: "error", bad: []int{5}, bound: 1, thin: true})
					}
				}
			}
			for _, c := range closes {
				sc := c.scenario()
				sh := 2
				if c.thin {
					sh = pick(tier, 3, 8)
				}
				jobs = append(jobs, Job{Name: sc.Name, Variant: Sched, Shards: sh, Run: func(j *J) { j.Explore(sc) }})
			}
			for _, w := range []int{1, 2, 3, 8} {
				for _, n := range []int{1, 2, 3, 5} {
					jobs = append(jobs, badPositionsJob(n, w, 1024, false))
				}
				for _, n := range []int{700, 1024, 1025, 1030, 2050} {
					jobs = append(jobs, badPositionsJob(n, w, 1024, true))
				}
				jobs = append(jobs, badPositionsJob(9, w, 1500, th))
			}
			return jobs
		}})
}
