package harness

import (
	"fmt"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/vshim"
)

// fleet is a set of generators and trackers with the ordered-set model.
type fleet struct {
	gens  []*gpsgen.Generator
	devs  []*gpsgen.Device
	image [][]byte
	list  [][]int  // model: trackers per generator, in attach order
	id    []string // model: current ids
}

func newFleet(gens int, ids ...string) *fleet {
	f := &fleet{id: append([]string(nil), ids...)}
	for i := 0; i < gens; i++ {
		f.gens = append(f.gens, newGen(2*time.Second, 1024, 1))
		f.list = append(f.list, nil)
	}
	for _, id := range ids {
		d := newDev(id, skipOff, static(1))
		must(d.AddRoute(spareRoute()))
		f.devs = append(f.devs, d)
		b, err := d.MarshalBinary()
		must(err)
		f.image = append(f.image, b)
	}
	return f
}

func (f *fleet) close() {
	for _, g := range f.gens {
		g.Close()
	}
}

func (f *fleet) where(t int) int {
	for g, l := range f.list {
		for _, x := range l {
			if x == t {
				return g
			}
		}
	}
	return -1
}

func (f *fleet) attach(g, t int) string {
	at := f.where(t)
	err := f.gens[g].Attach(f.devs[t])
	if at >= 0 {
		if err == nil {
			return fmt.Sprintf("attaching a tracker that is attached to generator %d succeeded", at)
		}
		return ""
	}
	if err != nil {
		return "attaching a free tracker failed: " + err.Error()
	}
	f.list[g] = append(f.list[g], t)
	return ""
}

func (f *fleet) detach(g int, id string) string {
	if err := f.gens[g].Detach(id); err != nil {
		return "Detach: " + err.Error()
	}
	if id == "" {
		return ""
	}
	for i, t := range f.list[g] {
		if f.id[t] == id {
			f.list[g] = append(append([]int(nil), f.list[g][:i]...), f.list[g][i+1:]...)
			break
		}
	}
	return ""
}

// judge compares everything the generators and trackers report with the model.
func (f *fleet) judge(ids []string) string {
	index := map[*gpsgen.Device]int{}
	for i, d := range f.devs {
		index[d] = i
	}
	for gi, g := range f.gens {
		l := f.list[gi]
		if n := g.NumDevices(); n != len(l) {
			return fmt.Sprintf("generator %d: NumDevices %d, want %d %v", gi, n, len(l), l)
		}
		for stop := 0; stop <= len(l); stop++ {
			if len(l) > 8 && stop > 2 && stop < len(l)-1 {
				continue
			}
			var got []int
			g.Each(func(i int, d *gpsgen.Device) bool {
				if i != len(got) {
					got = append(got, -1000-i)
				}
				t, ok := index[d]
				if !ok {
					t = -1
				}
				got = append(got, t)
				return len(got) <= stop
			})
			want := l
			if stop+1 < len(l) {
				want = l[:stop+1]
			}
			if fmt.Sprint(got) != fmt.Sprint(append([]int(nil), want...)) {
				return fmt.Sprintf("generator %d: Each visits %v, want %v", gi, clip(fmt.Sprint(got), 400), clip(fmt.Sprint(want), 400))
			}
		}
		for _, id := range ids {
			want := -1
			for _, t := range l {
				if f.id[t] == id && id != "" {
					want = t
					break
				}
			}
			if has := g.HasTracker(id); has != (want >= 0) {
				return fmt.Sprintf("generator %d: HasTracker(%q) %v, want %v", gi, id, has, want >= 0)
			}
			d, ok := g.Lookup(id)
			switch {
			case ok != (want >= 0), !ok && d != nil, ok && d != f.devs[want]:
				return fmt.Sprintf("generator %d: Lookup(%q) %v, want tracker %d", gi, id, ok, want)
			}
		}
	}
	for t, d := range f.devs {
		want := gpsgen.Stopped
		if f.where(t) >= 0 {
			want = gpsgen.Running
		}
		if d.Status() != want {
			return fmt.Sprintf("tracker %d: status %v, want %v (lists %v)", t, d.Status(), want, f.list)
		}
		if d.ID() != f.id[t] {
			return fmt.Sprintf("tracker %d: id %q, want %q", t, d.ID(), f.id[t])
		}
	}
	return ""
}

func (f *fleet) canon() string { return fmt.Sprint(f.list, f.id) }

// fleetJob explores every history of a fleet.
func fleetJob(name string, gens int, ids []string, restores bool, depth int, merge bool) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		fl := func(w *World) *fleet { return w.Aux.(*fleet) }
		probe := append([]string{"", "nope"}, ids...)
		s := &Seq{Name: name, Depth: depth, New: func() *World { return &World{Aux: newFleet(gens, ids...)} }}
		op := func(n string, run func(f *fleet) string) {
			s.Ops = append(s.Ops, SeqOp{Name: n, Run: func(w *World) interface{} { return run(fl(w)) }})
		}
		for g := 0; g < gens; g++ {
			g := g
			for t := range ids {
				t := t
				op(fmt.Sprintf("attach(%d,%d)", g, t), func(f *fleet) string { return f.attach(g, t) })
			}
			done := map[string]bool{}
			for _, id := range probe {
				if done[id] {
					continue
				}
				done[id] = true
				id := id
				op(fmt.Sprintf("detach(%d,%q)", g, id), func(f *fleet) string { return f.detach(g, id) })
			}
			op(fmt.Sprintf("attach(%d,nil)", g), func(f *fleet) string { _ = f.gens[g].Attach(nil); return "" })
		}
		if restores {
			for t := range ids {
				for k := range ids {
					t, k := t, k
					op(fmt.Sprintf("restore(%d from %d)", t, k), func(f *fleet) string {
						if err := f.devs[t].UnmarshalBinary(f.image[k]); err != nil {
							return "UnmarshalBinary: " + err.Error()
						}
						f.id[t] = ids[k]
						return ""
					})
				}
				t := t
				op(fmt.Sprintf("restore(%d from junk)", t), func(f *fleet) string {
					if f.devs[t].UnmarshalBinary([]byte{1}) == nil {
						return "junk restored"
					}
					return ""
				})
			}
		}
		s.Check = func(c *Tx) {
			if m := c.Res.(string); m != "" {
				c.Fail("result", "%s", m)
				return
			}
			if m := fl(c.W).judge(probe); m != "" {
				c.Fail("set", "%s", m)
			}
		}
		n := 0
		s.Canon = func(w *World) string {
			f := fl(w)
			f.close()
			if !merge {
				n++
				return fmt.Sprint(n)
			}
			return f.canon() + heapKey(f.gens, f.devs)
		}
		if merge {
			// a tick of each generator hands out its trackers in this order
			s.Final = func(c *Tx) {
				synctest.Test(j.T, func(t *testing.T) {
					w := s.Rebuild(c.Path)
					f := fl(w)
					for gi, g := range f.gens {
						r := &rec{}
						r.hook(g)
						go g.Run()
						synctest.Wait()
						time.Sleep(2 * time.Second)
						synctest.Wait()
						g.Close()
						synctest.Wait()
						recs, bad := r.decode()
						if bad != "" {
							c.Fail("tick", "generator %d: %s", gi, bad)
							return
						}
						var got, want []string
						for _, d := range recs {
							got = append(got, d.Id)
						}
						for _, t := range f.list[gi] {
							want = append(want, f.id[t])
						}
						if strings.Join(got, ",") != strings.Join(want, ",") {
							c.Fail("tick", "generator %d: a tick hands out %v, want %v", gi, got, want)
						}
						c.J.Trace()
					}
					if m := f.judge(probe); m != "" {
						c.Fail("closed", "after a tick and closing: %s", m)
					}
					// the collection of a closed generator is one all the same
					for gi := range f.gens {
						for t := range f.devs {
							if m := f.attach(gi, t); m != "" {
								c.Fail("closed", "after closing: %s", m)
								return
							}
						}
					}
					for gi := range f.gens {
						if len(f.list[gi]) > 0 {
							if m := f.detach(gi, f.id[f.list[gi][0]]); m != "" {
								c.Fail("closed", "after closing: %s", m)
								return
							}
						}
					}
					if m := f.judge(probe); m != "" {
						c.Fail("closed", "after closing, attaching and detaching: %s", m)
					}
				})
			}
		}
		j.BFS(s)
	}}
}

// crowdJob attaches up to n trackers and detaches one at every position.
func crowdJob(n int) Job {
	name := fmt.Sprintf("C04 crowd of %d", n)
	return Job{Name: name, Variant: Plain, Shards: 8, Run: func(j *J) {
		if j.Replay != "" {
			return
		}
		resetWorld()
		var ids []string
		for i := 0; i < n; i++ {
			ids = append(ids, fmt.Sprintf("t%d", i))
		}
		f := &fleet{id: ids, list: make([][]int, 1)}
		for _, id := range ids {
			d := newDev(id, skipOff)
			f.devs = append(f.devs, d)
		}
		fill := func() {
			f.gens = []*gpsgen.Generator{newGen(2*time.Second, 1024, 2)}
			f.list[0] = nil
			for i := range ids {
				if m := f.attach(0, i); m != "" {
					j.Fail(name+"/attach", name, "%s", m)
				}
			}
		}
		look := func(cs string, pr ...string) bool {
			j.Case(cs)
			j.Eval()
			j.State()
			j.Transition()
			if m := f.judge(pr); m != "" {
				j.Fail(name+"/set", cs, "%s: %s", cs, m)
				return false
			}
			return true
		}
		fill()
		if !look("all attached", ids[0], ids[n-1], ids[n/2]) {
			return
		}
		// detach at every position; re-attach: it becomes the last
		for k := j.Shard; k < n; k += max(1, j.Shards) {
			id := f.id[f.list[0][k]]
			t := f.list[0][k]
			m := f.detach(0, id)
			if m == "" && !look(fmt.Sprintf("position %d detached", k), id, f.id[f.list[0][0]], f.id[f.list[0][n-2]]) {
				return
			}
			if m == "" {
				m = f.attach(0, t)
			}
			if m != "" {
				j.Fail(name+"/result", name, "%s", m)
				return
			}
			if !look(fmt.Sprintf("position %d attached again", k), id) {
				return
			}
		}
		// down to none, from the middle
		for len(f.list[0]) > 0 {
			id := f.id[f.list[0][len(f.list[0])/2]]
			if m := f.detach(0, id); m != "" {
				j.Fail(name+"/result", name, "%s", m)
				return
			}
			if len(f.list[0])%97 == 0 && !look(fmt.Sprintf("down to %d", len(f.list[0])), id) {
				return
			}
		}
		look("none left", ids[0])
		f.close()
	}}
}

// ---- concurrent calls ----

func fleetWorld() *cworld {
	w := &cworld{}
	for i := 0; i < 2; i++ {
		w.Gens = append(w.Gens, newGen(2*time.Second, 1024, 1))
	}
	for _, id := range []string{"a", "b", "c", "d"} {
		w.Devs = append(w.Devs, newDev(id, skipOff, static(1)))
	}
	must(w.Gens[0].Attach(w.Devs[0]))
	must(w.Gens[0].Attach(w.Devs[1]))
	b, err := w.Devs[0].MarshalBinary()
	must(err)
	w.Same = b
	w.D = w.Devs[0]
	return w
}

func fleetIDs(g *gpsgen.Generator) string {
	var l []string
	g.Each(func(i int, d *gpsgen.Device) bool {
		vshim.HP(40)
		l = append(l, fmt.Sprint(i, d.ID()))
		return true
	})
	return fmt.Sprint(l)
}

func fleetFinal(w *cworld) string {
	s := ""
	for _, g := range w.Gens {
		s += fmt.Sprintf("%d %s", g.NumDevices(), fleetIDs(g))
		for _, d := range w.Devs {
			x, ok := g.Lookup(d.ID())
			s += fmt.Sprint(ok, x == d, g.HasTracker(d.ID()))
		}
	}
	for _, d := range w.Devs {
		s += fmt.Sprint(d.Status())
	}
	for _, g := range w.Gens {
		g.Close()
	}
	return s
}

func fleetCalls() (out []call) {
	add := func(name string, write bool, f func(w *cworld) string) {
		out = append(out, call{name: name, write: write, run: func(w *cworld) (string, func() string) { return f(w), nil }})
	}
	at := func(g, t int) {
		add(fmt.Sprintf("attach(%d,%c)", g, 'a'+t), true, func(w *cworld) string {
			if w.Gens[g].Attach(w.Devs[t]) != nil {
				return "refused"
			}
			return "ok"
		})
	}
	de := func(g int, id string) {
		add(fmt.Sprintf("detach(%d,%s)", g, id), true, func(w *cworld) string { return errRes(w.Gens[g].Detach(id)) })
	}
	at(0, 2)
	at(1, 2)
	at(0, 0)
	at(1, 0)
	at(0, 3)
	de(0, "a")
	de(0, "b")
	de(0, "c")
	de(1, "c")
	de(1, "a")
	add("restore(a)", true, func(w *cworld) string { return errRes(w.Devs[0].UnmarshalBinary(w.Same)) })
	add("restore(c as a)", true, func(w *cworld) string { return errRes(w.Devs[2].UnmarshalBinary(w.Same)) })
	for _, id := range []string{"a", "b", "c"} {
		id := id
		add("lookup(0,"+id+")", false, func(w *cworld) string {
			d, ok := w.Gens[0].Lookup(id)
			k := -1
			for i := range w.Devs {
				if w.Devs[i] == d {
					k = i
				}
			}
			return fmt.Sprint(k, ok)
		})
	}
	add("has(0,c)", false, func(w *cworld) string { return fmt.Sprint(w.Gens[0].HasTracker("c")) })
	add("has(0,b)", false, func(w *cworld) string { return fmt.Sprint(w.Gens[0].HasTracker("b")) })
	add("num(0)", false, func(w *cworld) string { return fmt.Sprint(w.Gens[0].NumDevices()) })
	add("each(0)", false, func(w *cworld) string { return fleetIDs(w.Gens[0]) })
	add("status(a)", false, func(w *cworld) string { return fmt.Sprint(w.Devs[0].Status()) })
	add("status(c)", false, func(w *cworld) string { return fmt.Sprint(w.Devs[2].Status()) })
	return out
}

func fleetThreadsJob(name, variant string, bound int, sets [][][]call) Job {
	return Job{Name: name, Variant: variant, Shards: 1, Run: func(j *J) {
		for _, threads := range sets {
			var parts []string
			for _, t := range threads {
				var ns []string
				for _, c := range t {
					ns = append(ns, c.name)
				}
				parts = append(parts, strings.Join(ns, "; "))
			}
			c := &concCase{name: "C04 " + variant + " " + strings.Join(parts, " || "), mk: fleetWorld, final: fleetFinal, threads: threads}
			j.Explore(c.scenario(bound, vshim.Config{Classes: ptsRoot | ptsDevice}))
			if j.Expired(name) {
				return
			}
		}
	}}
}

func init() {
	register(&Check{ID: "C04", Level: "model_checking",
		Rule:        "a transition is one call of a history over two generators and up to four trackers (all histories up to a depth, then up to closure of the reachable sets) compared with an ordered-set model and with the order of the records of one tick; an execution is one schedule of two or three threads of calls, whose results and final sets must be those of a sequential order",
		Assumptions: []string{"scheduling points at every statement and lock operation of the generator and tracker"},
		Jobs: func(tier string) []Job {
			th := tier == "thorough"
			jobs := []Job{
				fleetJob("C04 closure", 2, []string{"a", "b", "c"}, true, 40, true),
				fleetJob("C04 closure same ids", 2, []string{"a", "a", "b"}, true, 40, true),
				fleetJob("C04 closure four", 2, []string{"a", "b", "c", "a"}, false, 40, true),
				fleetJob("C04 histories", 2, []string{"a", "b"}, true, pick(tier, 4, 5), false),
				fleetJob("C04 histories three", 1, []string{"a", "b", "a"}, false, pick(tier, 5, 7), false),
				crowdJob(1026),
			}
			if th {
				jobs = append(jobs, crowdJob(2050), fleetJob("C04 closure five", 2, []string{"a", "b", "c", "d", "a"}, false, 40, true))
			}
			cs := fleetCalls()
			var mut []call
			for _, c := range cs {
				if c.write {
					mut = append(mut, c)
				}
			}
			for _, a := range cs {
				var sets [][][]call
				for _, b := range cs {
					if a.write || b.write {
						sets = append(sets, [][]call{{a}, {b}})
					}
				}
				jobs = append(jobs, fleetThreadsJob("C04 "+a.name+" || *", Sched, pick(tier, 2, 3), sets))
				if !a.write {
					continue
				}
				sets = nil
				for i, b := range mut {
					for _, c := range append(append([]call(nil), mut[i:]...), callNamed(cs, "each(0)"), callNamed(cs, "lookup(0,c)")) {
						sets = append(sets, [][]call{{a}, {b}, {c}})
					}
				}
				jobs = append(jobs, fleetThreadsJob("C04 "+a.name+" || * || *", Sched, pick(tier, 1, 2), sets))
			}
			// two calls in a row against one or two
			var sets [][][]call
			for _, a := range mut {
				for _, b := range mut {
					for _, n := range []string{"each(0)", "attach(0,c)", "detach(0,a)", "lookup(0,c)", "status(c)"} {
						sets = append(sets, [][]call{{a, b}, {callNamed(cs, n)}})
					}
				}
			}
			for i := 0; i < 8; i++ {
				var part [][][]call
				for k := i; k < len(sets); k += 8 {
					part = append(part, sets[k])
				}
				jobs = append(jobs, fleetThreadsJob(fmt.Sprintf("C04 two in a row (%d)", i), Sched, pick(tier, 1, 2), part))
			}
			for _, a := range cs {
				var sets [][][]call
				for _, b := range cs {
					sets = append(sets, [][]call{{a}, {b}})
				}
				jobs = append(jobs, fleetThreadsJob("C04 race "+a.name+" || *", Race, pick(tier, 0, 1), sets))
			}
			return jobs
		}})
}
