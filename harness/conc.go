package harness

import (
	"fmt"
	"strings"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/types"
	"github.com/mmadfox/go-gpsgen/vshim"
)

// ---- concurrent calls against all sequential orders of the same calls ----

// cworld is the system a set of concurrent calls works on.
type cworld struct {
	D      *gpsgen.Device
	Devs   []*gpsgen.Device
	Gens   []*gpsgen.Generator
	Routes []*navigator.Route // attached, then spare ones
	Sens   []*types.Sensor
	Image  []byte // of another tracker
	Same   []byte // of the tracker itself, earlier
	seq    bool
	owed   float64 // time of skipped steps, accounted for by the harness in sequential runs
}

// call is one call of the API. Its result is what the caller sees; later
// renders the returned object again, to see that nothing altered it.
type call struct {
	name  string
	write bool
	step  float64 // >0: a tracker step by that time
	drop  bool    // forgets the time owed by skipped steps
	run   func(w *cworld) (res string, later func() string)
}

type callRun struct {
	start, end int
	res        string
	later      func() string
	done       bool
}

// concCase is a set of threads, each making calls one after another.
type concCase struct {
	name    string
	mk      func() *cworld
	threads [][]call
	final   func(w *cworld) string
	lazy    int // threads from this index on are lazy (0: none)
}

type seqOutcome struct {
	order   []int
	skip    int // mask of skipped steps
	res     []string
	final   string
	display string
}

func (c *concCase) flat() (all []call, thread []int) {
	for t, cs := range c.threads {
		for _, x := range cs {
			all = append(all, x)
			thread = append(thread, t)
		}
	}
	return
}

// apply makes a call in a sequential run.
func (w *cworld) apply(x call, skip bool) (string, func() string) {
	if x.step > 0 {
		if skip {
			w.owed += x.step
			return "false", nil
		}
		if w.D.NumRoutes() == 0 {
			return fmt.Sprint(w.D.Next(x.step)), nil
		}
		t := w.owed + x.step
		w.owed = 0
		return fmt.Sprint(w.D.Next(t)), nil
	}
	if x.drop {
		w.owed = 0
	}
	return x.run(w)
}

// sequential runs the calls in every order that keeps the order within the
// threads, with every subset of the steps skipped.
func (c *concCase) sequential() []seqOutcome {
	all, thread := c.flat()
	n := len(all)
	var out []seqOutcome
	var order []int
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(order) == n {
			steps := 0
			for i, x := range all {
				if x.step > 0 {
					steps |= 1 << i
				}
			}
			for mask := steps; ; mask = (mask - 1) & steps {
				resetWorld()
				w := c.mk()
				w.seq = true
				o := seqOutcome{order: append([]int(nil), order...), skip: mask, res: make([]string, n)}
				for _, i := range order {
					o.res[i], _ = w.apply(all[i], mask>>i&1 == 1)
				}
				o.final = c.final(w)
				out = append(out, o)
				if mask == 0 {
					break
				}
			}
			return
		}
		for i := 0; i < n; i++ {
			if used[i] {
				continue
			}
			ready := true
			for k := 0; k < i; k++ {
				if thread[k] == thread[i] && !used[k] {
					ready = false
				}
			}
			if !ready {
				continue
			}
			used[i] = true
			order = append(order, i)
			rec()
			order = order[:len(order)-1]
			used[i] = false
		}
	}
	rec()
	return out
}

type tick struct{ n int }

//go:norace
func (t *tick) next() int { t.n++; return t.n }

//go:norace
func (r *callRun) begin(t *tick) { r.start = t.next() }

//go:norace
func (r *callRun) finish(t *tick, res string, later func() string) {
	r.res, r.later, r.end, r.done = res, later, t.next(), true
}

// scenario explores the schedules of the calls.
func (c *concCase) scenario(bound int, cfg vshim.Config) *Scenario {
	sc := &Scenario{Name: c.name, Bound: bound, Cfg: cfg, Quiet: true}
	all, thread := c.flat()
	var outs []seqOutcome
	sc.Body = func(x *Exec) {
		if outs == nil {
			outs = c.sequential()
			resetWorld()
		}
		w := c.mk()
		runs := make([]callRun, len(all))
		clock := &tick{}
		for t := range c.threads {
			t := t
			spawn := x.Spawn
			if c.lazy > 0 && t >= c.lazy {
				spawn = x.SpawnLazy
			}
			spawn(fmt.Sprintf("t%d", t), func() {
				for i := range all {
					if thread[i] != t {
						continue
					}
					r := &runs[i]
					r.begin(clock)
					var res string
					var later func() string
					if all[i].step > 0 {
						res = fmt.Sprint(w.D.Next(all[i].step))
					} else {
						res, later = all[i].run(w)
					}
					r.finish(clock, res, later)
				}
			})
		}
		if !x.Drive() {
			return
		}
		var names []string
		for i := range runs {
			if !runs[i].done {
				x.Fail("unfinished", "%s did not return", all[i].name)
				return
			}
			names = append(names, all[i].name)
			if runs[i].later != nil {
				if now := runs[i].later(); now != runs[i].res {
					x.Fail("altered", "what %s returned was altered afterwards by the other calls (%s):\n%q\n%q", all[i].name, strings.Join(names, ", "), clip(runs[i].res, 900), clip(now, 900))
					return
				}
			}
		}
		final := c.final(w)
		overlap := func(i int) bool {
			for k := range runs {
				if k != i && runs[k].start < runs[i].end && runs[i].start < runs[k].end {
					return true
				}
			}
			return false
		}
		legal, near := 0, ""
		for oi := range outs {
			o := &outs[oi]
			ok := true
			for a := 0; a < len(o.order) && ok; a++ {
				for b := a + 1; b < len(o.order); b++ {
					if runs[o.order[b]].end < runs[o.order[a]].start {
						ok = false
						break
					}
				}
			}
			for i := range all {
				if o.skip>>i&1 == 1 && !overlap(i) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			legal++
			same := o.final == final
			diff := ""
			if !same {
				diff = "final state:" + firstDiff(o.final, final)
			}
			for i := range all {
				if o.res[i] != runs[i].res {
					same = false
					diff = fmt.Sprintf("%s returned %s, want %s", all[i].name, clip(runs[i].res, 500), clip(o.res[i], 500))
				}
			}
			if same {
				x.Label = fmt.Sprintf("order %v skipped %b", o.order, o.skip)
				return
			}
			near += fmt.Sprintf("\norder %v skipped %b: %s", o.order, o.skip, diff)
		}
		x.Fail("not-sequential", "the results and the final state of %s are those of none of the %d sequential orders:%s", strings.Join(names, " || "), legal, clip(near, 2400))
	}
	return sc
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-80)
	return fmt.Sprintf(" want ...%q got ...%q", clip(a[lo:], 260), clip(b[lo:], 260))
}
