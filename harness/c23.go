package harness

import (
	"fmt"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/vshim"
)

const nextI = 2 * time.Second

// notif records the callbacks of a run in the order they are entered and left.
type notif struct {
	rec
	start   time.Time
	perTick int // packets and errors of a tick
	ev      []notifEv
	repl    []notifEv // replacements of callbacks
	running int
}

type notifEv struct {
	kind byte // 'p' packet or error callback entered, 'P' left, 'n' next-step callback entered, 'N' left
	who  string
	at   time.Duration
}

func (n *notif) add(kind byte, who string) {
	n.lock()
	defer n.unlock()
	if n.runDone {
		n.problems = append(n.problems, "a callback was invoked after Run returned")
	}
	n.ev = append(n.ev, notifEv{kind, who, time.Since(n.start)})
	if kind == 'n' {
		n.running++
		if n.running > 1 {
			n.problems = append(n.problems, "two next-step invocations at once")
		}
	}
	if kind == 'N' {
		n.running--
	}
}

// wait sleeps inside a callback.
func (n *notif) wait(d time.Duration) {
	if d > 0 {
		time.Sleep(d)
		vshim.HP(60)
	}
}

func (n *notif) packetCB(who string, d func() time.Duration) func([]byte) {
	return func(b []byte) {
		n.add('p', who)
		n.lock()
		n.packets = append(n.packets, append([]byte(nil), b...))
		n.unlock()
		if d != nil {
			n.wait(d())
		}
		n.add('P', who)
	}
}

func (n *notif) errorCB(who string, d func() time.Duration) func(error) {
	return func(e error) {
		n.add('p', who)
		n.lock()
		n.errs = append(n.errs, e.Error())
		n.unlock()
		if d != nil {
			n.wait(d())
		}
		n.add('P', who)
	}
}

func (n *notif) nextCB(who string, d func() time.Duration) func() {
	return func() {
		n.add('n', who)
		if d != nil {
			n.wait(d())
		}
		n.add('N', who)
	}
}

func (n *notif) text() string {
	var s []string
	for _, e := range n.ev {
		s = append(s, fmt.Sprintf("%c%s@%v", e.kind, e.who, e.at))
	}
	return strings.Join(s, " ")
}

// sequence returns the callback durations of a pattern, one per call, then 0.
func sequence(pat []float64) func() time.Duration {
	i := -1
	return func() time.Duration {
		i++
		if i < len(pat) {
			return time.Duration(pat[i] * float64(nextI))
		}
		return 0
	}
}

// check decides the notifications of a run: setAt is when a next-step
// callback was there (0: from the start), closed when the generator was
// closed. absent: no next-step callback at all.
func (n *notif) check(ticks int, closed time.Duration, absent func(at time.Duration) bool) string {
	if len(n.problems) > 0 {
		return n.problems[0]
	}
	type done struct {
		pos int
		at  time.Duration
	}
	// the ticks' deliveries, in order: the last of perTick callbacks left
	var ticksDone []done
	left := 0
	for i, e := range n.ev {
		if e.kind == 'P' {
			left++
			if left%n.perTick == 0 {
				ticksDone = append(ticksDone, done{i, e.at})
			}
		}
	}
	if ticks >= 0 && len(ticksDone) != ticks {
		return fmt.Sprintf("%d ticks were delivered, want %d", len(ticksDone), ticks)
	}
	// never more invocations than ticks delivered
	inv := 0
	for i, e := range n.ev {
		if e.kind != 'n' {
			continue
		}
		inv++
		d := 0
		for _, t := range ticksDone {
			if t.pos < i {
				d++
			}
		}
		if inv > d {
			return fmt.Sprintf("next-step invocation %d at %v comes when only %d ticks have been delivered", inv, e.at, d)
		}
	}
	// ticks share one later invocation: none is invoked twice for
	prev := time.Duration(-1)
	for _, e := range n.ev {
		if e.kind != 'n' {
			continue
		}
		fresh := false
		for _, t := range ticksDone {
			fresh = fresh || t.at >= prev && t.at <= e.at
		}
		if !fresh {
			return fmt.Sprintf("no tick was delivered between the next-step invocation at %v and the one at %v", prev, e.at)
		}
		prev = e.at
	}
	// every tick is followed by an invocation of its own or a shared one
	for k, t := range ticksDone {
		if absent(t.at) {
			continue
		}
		run := 0
		for _, e := range n.ev[:t.pos] {
			switch e.kind {
			case 'n':
				run++
			case 'N':
				run--
			}
		}
		found, ended := false, time.Duration(-1)
		var at time.Duration
		for _, e := range n.ev[t.pos:] {
			if e.kind == 'N' && ended < 0 {
				ended = e.at
			}
			if e.kind == 'n' {
				found, at = true, e.at
				break
			}
		}
		if !found {
			if t.at == closed || run > 0 && (ended < 0 || ended >= closed) {
				continue // it could not be invoked before Close
			}
			return fmt.Sprintf("no next-step invocation after tick %d, delivered at %v (closed at %v)", k+1, t.at, closed)
		}
		if run == 0 && at != t.at {
			return fmt.Sprintf("tick %d was delivered at %v while no invocation was running, but its next-step invocation comes at %v", k+1, t.at, at)
		}
		if run > 0 && at != ended {
			return fmt.Sprintf("tick %d was delivered at %v during an invocation that ended at %v, but its next-step invocation comes at %v", k+1, t.at, ended, at)
		}
	}
	return ""
}

// repl replaces a callback: kind and number.
func repl(g *gpsgen.Generator, n *notif, what string) {
	switch what[0] {
	case 'p':
		g.OnPacket(n.packetCB(what, nil))
	case 'n':
		g.OnNext(n.nextCB(what, nil))
	case 'e':
		g.OnError(n.errorCB(what, nil))
	}
	n.lock()
	defer n.unlock()
	n.repl = append(n.repl, notifEv{what[0], what, time.Since(n.start)})
}

// replaced decides that a callback that was replaced is not called later.
func (n *notif) replaced() string {
	for _, e := range n.ev {
		kind := e.kind
		if kind == 'P' || kind == 'N' {
			continue
		}
		if kind == 'p' && strings.HasPrefix(e.who, "e") {
			kind = 'e'
		}
		want := ""
		for _, r := range n.repl {
			if r.kind == kind && r.at < e.at {
				want = r.who
			}
		}
		if want != "" && e.who != want {
			for _, r := range n.repl { // replaced again right then
				if r.kind == kind && r.at == e.at && r.who == e.who {
					want = e.who
				}
			}
		}
		if want != "" && e.who != want {
			return fmt.Sprintf("callback %q is invoked at %v although %q replaced it before", e.who, e.at, want)
		}
	}
	return ""
}

func never(time.Duration) bool { return false }

// ---- schedules ----

type nextCase struct {
	n, workers int
	bad        bool // the first tracker cannot be encoded
	nextPat    []float64
	packetPat  []float64
	errorPat   []float64
	edit       string // what a further thread (or a callback) does
	editAt     time.Duration
	ticks      int
	bound      int
	eager      bool
	thin       bool
	perTick    int
}

func (c nextCase) name(variant string) string {
	s := fmt.Sprintf("C23 n=%d w=%d bad=%v next=%v packet=%v error=%v %s@%v ticks=%d eager=%v", c.n, c.workers, c.bad, c.nextPat, c.packetPat, c.errorPat, c.edit, c.editAt, c.ticks, c.eager)
	if variant == Race {
		s = "C23 race" + s[3:]
	}
	return s
}

func (c nextCase) scenario(variant string) *Scenario {
	sc := &Scenario{Name: c.name(variant), Bound: c.bound}
	sc.Cfg = vshim.Config{Quantum: nextI / 4, MaxIdle: 40, Classes: ptsRoot, Horizon: 20000, Thin: 6, ThinMod: 512}
	if c.thin {
		sc.Cfg.Thin, sc.Cfg.ThinMod, sc.Cfg.QuietLocks, sc.Cfg.Horizon = 3, 512, true, 400000
	}
	sc.Body = func(x *Exec) {
		g := newGen(nextI, 1024, c.workers)
		n := &notif{start: time.Now(), perTick: c.perTick}
		var devs []*gpsgen.Device
		for i := 0; i < c.n; i++ {
			d := newDev(fmt.Sprintf("d%d", i), skipOff, static(1))
			must(d.AddRoute(countRoute))
			must(g.Attach(d))
			devs = append(devs, d)
		}
		if c.bad {
			devs[0].SetDescription(badText)
		}
		closeAt := time.Duration(c.ticks)*nextI + nextI/2
		for _, p := range append(append(append([]float64{}, c.nextPat...), c.packetPat...), c.errorPat...) {
			closeAt += time.Duration(p * float64(nextI))
		}
		absent := never
		set := time.Duration(-1)
		pk, nx := n.packetCB("", sequence(c.packetPat)), n.nextCB("", sequence(c.nextPat))
		if c.edit != "packet missing" {
			g.OnPacket(pk)
		}
		if c.edit != "error missing" {
			g.OnError(n.errorCB("e", sequence(c.errorPat)))
		}
		inCB := func(f func()) { // replace from inside callbacks
			switch c.edit {
			case "in packet: next":
				repl(g, n, "n2")
			case "in packet: packet":
				repl(g, n, "p2")
			case "in packet: all":
				repl(g, n, "p2")
				repl(g, n, "n2")
				repl(g, n, "e2")
			}
			f()
		}
		if strings.HasPrefix(c.edit, "in packet") {
			g.OnPacket(func(b []byte) { inCB(func() { pk(b) }) })
		}
		switch c.edit {
		case "next missing":
			absent = func(time.Duration) bool { return true }
		case "set":
			absent = func(at time.Duration) bool { return set < 0 || at <= set }
		case "in next: next":
			g.OnNext(func() { repl(g, n, "n2"); nx() })
		case "in next: packet":
			g.OnNext(func() { repl(g, n, "p2"); nx() })
		default:
			g.OnNext(nx)
		}
		if c.editAt > 0 {
			spawn := x.SpawnLazy
			if c.eager {
				spawn = x.Spawn
			}
			spawn("edit", func() {
				time.Sleep(c.editAt)
				vshim.HP(10)
				switch c.edit {
				case "replace next", "set":
					set = c.editAt
					repl(g, n, "n2")
				case "replace packet":
					repl(g, n, "p2")
				case "replace error":
					repl(g, n, "e2")
				case "replace all":
					repl(g, n, "p2")
					repl(g, n, "n2")
					repl(g, n, "e2")
				case "replace twice":
					repl(g, n, "n2")
					repl(g, n, "p2")
					repl(g, n, "n3")
					repl(g, n, "p3")
				case "remove next":
					set = c.editAt
					g.OnNext(nil)
				case "reads":
					g.NumDevices()
					g.Lookup("d0")
					g.HasTracker("d1")
				case "churn":
					d := newDev("extra", skipOff, static(1))
					_ = g.Attach(d)
					_ = g.Detach("extra")
				}
			})
		}
		if c.edit == "remove next" {
			absent = func(at time.Duration) bool { return set >= 0 && at >= set }
		}
		x.Spawn("run", n.run(g))
		x.SpawnLazy("closer", func() { time.Sleep(closeAt); vshim.HP(1); g.Close() })
		if !x.Drive() {
			return
		}
		ticks := c.ticks
		if len(c.packetPat)+len(c.nextPat)+len(c.errorPat) > 0 {
			ticks = -1
		}
		if m := n.replaced(); m != "" {
			x.Fail("replaced", "%s: %s", m, n.text())
			return
		}
		if c.edit == "packet missing" || c.edit == "error missing" && c.bad {
			// ticks cannot be seen in callbacks: they happen at the interval
			inv := 0
			for _, e := range n.ev {
				if e.kind == 'n' {
					inv++
				}
			}
			if len(n.problems) > 0 || inv != c.ticks {
				x.Fail("missing", "%d next-step invocations in %d ticks; %v: %s", inv, c.ticks, n.problems, n.text())
			}
			return
		}
		if c.n == 0 {
			inv := 0
			for _, e := range n.ev {
				if e.kind == 'n' {
					inv++
					if e.at != time.Duration(inv)*nextI && len(c.nextPat) == 0 {
						x.Fail("empty", "invocation %d at %v: %s", inv, e.at, n.text())
					}
				}
			}
			if len(n.problems) > 0 || len(c.nextPat) == 0 && inv != c.ticks {
				x.Fail("empty", "%d next-step invocations in %d ticks without trackers; %v: %s", inv, c.ticks, n.problems, n.text())
			}
			return
		}
		if m := n.check(ticks, closeAt, absent); m != "" {
			x.Fail("notifications", "%s: %s", m, n.text())
			return
		}
		// the deliveries of every tick
		recs, bad := n.decode()
		if bad != "" {
			x.Fail("blank", "%s", bad)
			return
		}
		seen := map[string]int{}
		for _, d := range recs {
			k := fmt.Sprintf("%s at %v", d.Id, d.Duration)
			if seen[k]++; seen[k] > 1 {
				x.Fail("twice", "the record of %s is delivered twice: %s", k, n.text())
				return
			}
		}
		x.Label = n.text()
		if len(x.Label) > 300 {
			x.Label = fmt.Sprintf("%d callback events", len(n.ev))
		}
	}
	return sc
}

// packetsOf is the number of packets of a tick of n trackers, observed on a
// generator without competition.
func packetsOf(t *testing.T, n, workers int) (packets int) {
	if n == 0 {
		return 1
	}
	synctest.Test(t, func(t *testing.T) {
		resetWorld()
		g := newGen(nextI, 1024, workers)
		r := &rec{}
		r.hook(g)
		for i := 0; i < n; i++ {
			must(g.Attach(newDev(fmt.Sprintf("d%d", i), skipOff, static(1))))
		}
		go g.Run()
		time.Sleep(nextI + nextI/2)
		synctest.Wait()
		r.lock()
		packets = len(r.packets)
		r.unlock()
		g.Close()
		synctest.Wait()
	})
	return max(1, packets)
}

// ---- patterns of slow callbacks ----

// slowNotifyJob runs the real generator for every pattern of callback times.
func slowNotifyJob(n, workers int, bad bool, menu []float64, nextLen, packetLen int) Job {
	name := fmt.Sprintf("C23 slow n=%d w=%d bad=%v menu=%v next=%d packet=%d", n, workers, bad, menu, nextLen, packetLen)
	return Job{Name: name, Variant: Plain, Shards: 4, Run: func(j *J) {
		total := 1
		for i := 0; i < nextLen+packetLen; i++ {
			total *= len(menu)
		}
		j.Sample(fmt.Sprintf("%s: %d patterns", name, total))
		perTick := packetsOf(j.T, n, workers)
		for k := 0; k < total; k++ {
			if !j.Mine(k) {
				continue
			}
			var pat []float64
			q := k
			for i := 0; i < nextLen+packetLen; i++ {
				pat = append(pat, menu[q%len(menu)])
				q /= len(menu)
			}
			np, pp := pat[:nextLen], pat[nextLen:]
			cs := fmt.Sprintf("%s next=%v packet=%v", name, np, pp)
			if !j.Want(cs) {
				continue
			}
			if j.Expired(name) {
				return
			}
			j.Case(cs)
			j.Eval()
			j.State()
			j.Distinct(cs)
			synctest.Test(j.T, func(t *testing.T) {
				resetWorld()
				g := newGen(nextI, 1024, workers)
				nt := &notif{start: time.Now(), perTick: perTick}
				g.OnPacket(nt.packetCB("", sequence(pp)))
				g.OnError(nt.errorCB("", sequence(pp)))
				g.OnNext(nt.nextCB("", sequence(np)))
				for i := 0; i < n; i++ {
					d := newDev(fmt.Sprintf("d%d", i), skipOff, static(1))
					must(d.AddRoute(countRoute))
					must(g.Attach(d))
					if bad && i == 0 {
						d.SetDescription(badText)
					}
				}
				go g.Run()
				length := nextI / 4
				for _, p := range pat {
					length += time.Duration((p + 1) * float64(nextI))
				}
				time.Sleep(length)
				synctest.Wait()
				nt.lock()
				m := nt.check(-1, length, never)
				nt.unlock()
				if m != "" {
					j.Fail(name+"/notifications", cs, "%s: %s", m, nt.text())
				}
				nt.lock()
				j.res.Transitions += int64(len(nt.ev))
				nt.unlock()
				g.Close()
				time.Sleep(4 * nextI)
				synctest.Wait()
				// all quick again before the end: the last ticks are on time
				if m == "" && maxOf(pp) == 0 {
					nt.lock()
					ticks := 0
					for _, e := range nt.ev {
						if e.kind == 'P' {
							ticks++
						}
					}
					if want := int(length/nextI) * nt.perTick; ticks != want {
						j.Fail(name+"/ticks", cs, "%d packet callbacks in %v although only the next-step callback is slow, want %d: %s", ticks, length, want, nt.text())
					}
					nt.unlock()
				}
				j.Trace()
			})
		}
	}}
}

// intervalNotifyJob counts the next-step invocations of every interval, with
// and without trackers, trackers attached or detached at every tick, and no
// callbacks besides the next-step one.
func intervalNotifyJob(workers int, intervals []time.Duration, ticks int) Job {
	name := fmt.Sprintf("C23 intervals w=%d ticks=%d", workers, ticks)
	return Job{Name: name, Variant: Plain, Shards: 2, Run: func(j *J) {
		k := -1
		for _, I := range intervals {
			for _, n := range []int{0, 1, 3, 400, 1100} {
				if n == 1100 && I > time.Second { // more than a packet
					continue
				}
				for _, edit := range []string{"", "attach", "detach"} {
					for at := 1; at < ticks; at++ {
						if edit == "" && at > 1 || edit == "detach" && n == 0 {
							continue
						}
						for _, packets := range []bool{false, true} {
							k++
							cs := fmt.Sprintf("%s interval=%v n=%d %s@%d packets=%v", name, I, n, edit, at, packets)
							if !j.Mine(k) || !j.Want(cs) {
								continue
							}
							if j.Expired(name) {
								return
							}
							j.Case(cs)
							j.Eval()
							j.State()
							j.Distinct(cs)
							synctest.Test(j.T, func(t *testing.T) {
								resetWorld()
								g := newGen(I, 1024, workers)
								nt := &notif{start: time.Now(), perTick: 1}
								if packets {
									g.OnPacket(nt.packetCB("", nil))
									g.OnError(nt.errorCB("", nil))
								}
								g.OnNext(nt.nextCB("", nil))
								for i := 0; i < n; i++ {
									must(g.Attach(newDev(fmt.Sprintf("d%d", i), skipOff, static(1))))
								}
								nt.start = time.Now()
								go g.Run()
								time.Sleep(time.Duration(at)*I + I/2)
								synctest.Wait()
								switch edit {
								case "attach":
									must(g.Attach(newDev("late", skipOff, static(1))))
								case "detach":
									for i := 0; i < n; i++ {
										must(g.Detach(fmt.Sprintf("d%d", i)))
									}
								}
								time.Sleep(time.Duration(ticks-at) * I)
								synctest.Wait()
								nt.lock()
								inv, bad := 0, ""
								for _, e := range nt.ev {
									if e.kind == 'n' {
										inv++
										if e.at != time.Duration(inv)*I {
											bad = fmt.Sprintf("invocation %d comes at %v", inv, e.at)
										}
									}
								}
								j.res.Transitions += int64(len(nt.ev))
								if bad == "" && inv != ticks {
									bad = fmt.Sprintf("%d next-step invocations in %d ticks", inv, ticks)
								}
								if len(nt.problems) > 0 {
									bad = nt.problems[0]
								}
								if bad != "" {
									j.Fail(name+"/ticks", cs, "%s: %.300s", bad, nt.text())
								}
								nt.unlock()
								g.Close()
								time.Sleep(2 * I)
								synctest.Wait()
								j.Trace()
							})
						}
					}
				}
			}
		}
	}}
}

func init() {
	register(&Check{ID: "C23", Level: "model_checking",
		Rule:        "an execution is one schedule of a generator's ticks with quick, slow, missing, replaced or failing callbacks, or one pattern of callback times; the entries and exits of all callbacks, with their times, are checked",
		Assumptions: []string{"scheduling points at every statement and lock operation of the generator", "fake clock: time advances only when nothing can run", "race detection covers the explored schedules"},
		Jobs: func(tier string) []Job {
			th := tier == "thorough"
			var jobs []Job
			I := nextI
			var cases []nextCase
			for _, n := range []int{0, 1, 2} {
				for _, w := range []int{1, 2} {
					cases = append(cases, nextCase{n: n, workers: w, ticks: 3, bound: 2},
						nextCase{n: n, workers: w, ticks: 2, nextPat: []float64{1.25}, bound: pick(tier, 1, 2)},
						nextCase{n: n, workers: w, ticks: 2, nextPat: []float64{2.25, 0.25}, bound: 1})
					if n > 0 {
						cases = append(cases, nextCase{n: n, workers: w, ticks: 2, edit: "next missing", bound: 1})
					}
					for _, e := range []string{"in next: next", "in next: packet"} {
						cases = append(cases, nextCase{n: n, workers: w, ticks: 2, edit: e, bound: pick(tier, 1, 2)})
					}
					for _, at := range []time.Duration{I, I + I/2} {
						for _, e := range []string{"replace next", "replace packet", "replace all", "replace twice", "set", "remove next", "reads", "churn"} {
							for _, eager := range []bool{false, true} {
								if at > I && eager {
									continue
								}
								b := pick(tier, 1, 2)
								if n == 1 && w == 1 {
									b = pick(tier, 2, 3)
								}
								if e == "churn" && n == 0 {
									continue
								}
								if e == "set" || e == "remove next" {
									if n == 0 {
										continue
									}
								}
								cases = append(cases, nextCase{n: n, workers: w, ticks: 2, edit: e, editAt: at, eager: eager, bound: b})
							}
						}
					}
					if n == 0 {
						continue
					}
					// replaced while an invocation is running and another one is due
					for _, e := range []string{"replace next", "replace packet", "replace twice"} {
						for _, at := range []time.Duration{I + I/2, 2*I + I/4, 3 * I} {
							if n*w > 1 && at != 2*I+I/4 && !th {
								continue
							}
							cases = append(cases, nextCase{n: n, workers: w, ticks: 2, nextPat: []float64{2.5, 1.25}, edit: e, editAt: at, bound: pick(tier, 1, 2)})
						}
					}
					for _, e := range []string{"packet missing", "error missing"} {
						cases = append(cases, nextCase{n: n, workers: w, ticks: 2, edit: e, bound: 1}, nextCase{n: n, workers: w, ticks: 2, bad: true, edit: e, bound: 1})
					}
					for _, e := range []string{"in packet: next", "in packet: packet", "in packet: all"} {
						cases = append(cases, nextCase{n: n, workers: w, ticks: 2, edit: e, bound: pick(tier, 1, 2)})
					}
					cases = append(cases,
						nextCase{n: n, workers: w, ticks: 3, bad: true, bound: pick(tier, 1, 2)},
						nextCase{n: n, workers: w, ticks: 2, bad: true, edit: "replace error", editAt: I, eager: true, bound: pick(tier, 1, 2)},
						nextCase{n: n, workers: w, ticks: 2, bad: true, errorPat: []float64{1.25}, bound: 1},
						nextCase{n: n, workers: w, ticks: 2, packetPat: []float64{1.25}, bound: pick(tier, 1, 2)},
						nextCase{n: n, workers: w, ticks: 2, packetPat: []float64{1.25}, nextPat: []float64{1.5}, bound: 1},
						nextCase{n: n, workers: w, ticks: 2, packetPat: []float64{0.25, 2.25}, nextPat: []float64{0.5, 1.5}, bound: 1})
				}
			}
			for _, c := range []nextCase{{n: 700, workers: 2}, {n: 700, workers: 3}, {n: 700, workers: 3, bad: true}, {n: 700, workers: 2, packetPat: []float64{1.25}}} {
				c.ticks, c.bound, c.thin = 2, pick(tier, 1, 2), true
				cases = append(cases, c)
			}
			for _, c := range cases {
				c := c
				sc := c.scenario(Sched)
				sh := 1
				if c.bound > 1 || c.thin {
					sh = 4
				}
				jobs = append(jobs, Job{Name: sc.Name, Variant: Sched, Shards: sh, Run: func(j *J) {
					c.perTick = packetsOf(j.T, c.n, c.workers)
					j.Explore(c.scenario(Sched))
				}})
				if c.editAt > 0 && c.eager && (th || c.n == 1) {
					c.bound = pick(tier, 0, 1)
					rc := c
					jobs = append(jobs, Job{Name: rc.name(Race), Variant: Race, Run: func(j *J) {
						rc.perTick = packetsOf(j.T, rc.n, rc.workers)
						j.Explore(rc.scenario(Race))
					}})
				}
			}
			for _, w := range []int{1, 2, 4} {
				jobs = append(jobs, intervalNotifyJob(w, []time.Duration{time.Millisecond, 100 * time.Millisecond, 500 * time.Millisecond, 999 * time.Millisecond, time.Second, 1001 * time.Millisecond, 1500 * time.Millisecond, 5 * time.Second, time.Hour}, pick(tier, 4, 7)))
			}
			menu := []float64{0, 0.3, 1.3, 2.7}
			for _, w := range []int{1, 2} {
				jobs = append(jobs, slowNotifyJob(1, w, false, menu, pick(tier, 3, 5), pick(tier, 2, 3)),
					slowNotifyJob(2, w, true, menu, pick(tier, 2, 4), pick(tier, 3, 4)),
					slowNotifyJob(1, w, false, []float64{0, 0.3, 0.7, 1.3, 1.7, 2.3, 3.1}, pick(tier, 4, 5), 0))
			}
			jobs = append(jobs, slowNotifyJob(1, 4, false, []float64{0, 0.3, 2.3, 5.7}, pick(tier, 3, 4), pick(tier, 1, 2)),
				slowNotifyJob(2, 3, true, []float64{0, 1.3, 4.7}, pick(tier, 2, 3), pick(tier, 2, 3)))
			return jobs
		}})
}
