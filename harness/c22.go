package harness

import (
	"fmt"
	"math"
	"strings"

	"github.com/lucasb-eyer/go-colorful"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/types"
)

// collModel is what a tracker should hold.
type collModel struct {
	routes                    []int // pool positions
	sensors                   []int
	model, user, descr, color string
}

func (m *collModel) String() string {
	return fmt.Sprintf("routes=%v sensors=%v labels=%q %q %q %q", m.routes, m.sensors, m.model, m.user, m.descr, m.color)
}

func cm(w *World) *collModel { return w.Aux.(*collModel) }

var longID = strings.Repeat("r", 36)

// pool of the collection check: positions 0..2 have distinct ids (also of one
// and of 36 characters), 3 shares the id of 0.
func collWorld() *World {
	w := &World{D: newDev("dev", static(2), skipOff)}
	for i, id := range []string{"route-0", "r", longID, "route-0"} {
		r := navigator.RestoreRoute(id, "#0a0b0c", nil)
		r.AddTrack(lineTrack(10+float64(i), 20, 20+float64(i), 5))
		w.Pool = append(w.Pool, r)
	}
	for i := 0; i < 3; i++ {
		w.Sens = append(w.Sens, mkSensor(i))
	}
	dup, err := types.RestoreSensor(w.Sens[0].ID(), "duplicate", 0, 1, 4, types.WithSensorRandomMode)
	must(err)
	w.Sens = append(w.Sens, dup)
	w.Aux = &collModel{model: "model-x", color: "#112233"}
	return w
}

func has(xs []int, f func(int) bool) bool {
	for _, x := range xs {
		if f(x) {
			return true
		}
	}
	return false
}

func drop(xs []int, f func(int) bool) ([]int, bool) {
	for i, x := range xs {
		if f(x) {
			return append(append([]int(nil), xs[:i]...), xs[i+1:]...), true
		}
	}
	return xs, false
}

type expectRes struct{ got, want interface{} }

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return "error"
}

func collAddRoutes(idx ...int) SeqOp { // -1: nil
	return SeqOp{Name: fmt.Sprintf("AddRoute(%v)", idx), Kind: "addroute", Run: func(w *World) interface{} {
		m := cm(w)
		var rs []*navigator.Route
		for _, i := range idx {
			if i < 0 {
				rs = append(rs, nil)
				continue
			}
			rs = append(rs, w.Pool[i])
			if !has(m.routes, func(x int) bool { return w.Pool[x].ID() == w.Pool[i].ID() }) {
				m.routes = append(m.routes, i)
			}
		}
		want := ""
		if len(idx) == 0 {
			want = "error"
		}
		return expectRes{errStr(w.D.AddRoute(rs...)), want}
	}}
}

func collRemoveRoute(id string) SeqOp {
	return SeqOp{Name: fmt.Sprintf("RemoveRoute(%q)", id), Run: func(w *World) interface{} {
		m := cm(w)
		var ok bool
		m.routes, ok = drop(m.routes, func(x int) bool { return w.Pool[x].ID() == id })
		return expectRes{w.D.RemoveRoute(id), ok}
	}}
}

func collAddSensors(idx ...int) SeqOp {
	return SeqOp{Name: fmt.Sprintf("AddSensor(%v)", idx), Run: func(w *World) interface{} {
		m := cm(w)
		var ss []*gpsgen.Sensor
		for _, i := range idx {
			if i < 0 {
				ss = append(ss, nil)
				continue
			}
			ss = append(ss, w.Sens[i])
			if !has(m.sensors, func(x int) bool { return w.Sens[x].ID() == w.Sens[i].ID() }) {
				m.sensors = append(m.sensors, i)
			}
		}
		w.D.AddSensor(ss...)
		return nil
	}}
}

func collRemoveSensor(name string, id func(w *World) string) SeqOp {
	return SeqOp{Name: fmt.Sprintf("RemoveSensor(%s)", name), Run: func(w *World) interface{} {
		m := cm(w)
		var ok bool
		m.sensors, ok = drop(m.sensors, func(x int) bool { return w.Sens[x].ID() == id(w) })
		return expectRes{w.D.RemoveSensor(id(w)), ok}
	}}
}

func collSetModel(v string, valid bool) SeqOp {
	return SeqOp{Name: fmt.Sprintf("SetModel(%d chars)", len(v)), Run: func(w *World) interface{} {
		if valid {
			cm(w).model = v
		}
		return expectRes{w.D.SetModel(v) == nil, valid}
	}}
}

func collSetColor(c colorful.Color, hex string) SeqOp {
	return SeqOp{Name: fmt.Sprintf("SetColor(%v)", c), Run: func(w *World) interface{} {
		if hex != "" {
			cm(w).color = hex
		}
		return expectRes{w.D.SetColor(c) == nil, hex != ""}
	}}
}

// judgeColl compares everything readable with the model.
func judgeColl(c *Tx) {
	w, d, m := c.W, c.W.D, cm(c.W)
	if e, ok := c.Res.(expectRes); ok && e.got != e.want {
		c.Fail("result", "returned %v, expected %v (%v)", e.got, e.want, m)
	}
	fail := func(kind, format string, a ...interface{}) {
		c.Fail(kind, "%s; the tracker should hold %v", fmt.Sprintf(format, a...), m)
	}
	// routes
	if d.NumRoutes() != len(m.routes) {
		fail("routes", "NumRoutes is %d", d.NumRoutes())
	}
	sum := 0.0
	for _, x := range m.routes {
		sum += w.Pool[x].Distance()
	}
	if !eq(d.Distance(), sum) {
		fail("routes", "Distance is %v, expected %v", d.Distance(), sum)
	}
	for i := -2; i < len(m.routes)+3; i++ {
		var want *navigator.Route
		if i >= 0 && i < len(m.routes) {
			want = w.Pool[m.routes[i]]
		}
		if d.RouteAt(i) != want {
			fail("routes", "RouteAt(%d) is another route", i)
		}
	}
	list := d.Routes()
	if len(list) != len(m.routes) {
		fail("routes", "Routes lists %d routes", len(list))
	}
	for i := range list {
		if i < len(m.routes) && list[i] != w.Pool[m.routes[i]] {
			fail("routes", "Routes()[%d] is another route", i)
		}
	}
	for stop := 0; stop <= len(m.routes); stop++ {
		var got []int
		bad := ""
		d.EachRoute(func(i int, r *navigator.Route) bool {
			got = append(got, i)
			if i >= len(m.routes) || r != w.Pool[m.routes[i]] {
				bad = fmt.Sprintf("EachRoute gives another route at %d", i)
			}
			return len(got) <= stop
		})
		want := stop + 1
		if want > len(m.routes) {
			want = len(m.routes)
		}
		for i, g := range got {
			if g != i {
				bad = fmt.Sprintf("EachRoute indices %v", got)
			}
		}
		if bad == "" && len(got) != want {
			bad = fmt.Sprintf("EachRoute, stopped after %d, made %d calls, expected %d", stop+1, len(got), want)
		}
		if bad != "" {
			fail("each", "%s", bad)
		}
	}
	// the list is a copy
	for i := range list {
		list[i] = nil
	}
	_ = append(list[:0], w.Pool[0], w.Pool[0], w.Pool[0])
	for i, x := range m.routes {
		if d.RouteAt(i) != w.Pool[x] {
			fail("copy", "writing to the list returned by Routes changed route %d", i)
		}
	}
	// sensors
	if d.NumSensors() != len(m.sensors) {
		fail("sensors", "NumSensors is %d", d.NumSensors())
	}
	for i := -2; i < len(m.sensors)+3; i++ {
		var want *gpsgen.Sensor
		if i >= 0 && i < len(m.sensors) {
			want = w.Sens[m.sensors[i]]
		}
		if d.SensorAt(i) != want {
			fail("sensors", "SensorAt(%d) is another sensor", i)
		}
	}
	for i := range w.Sens {
		id := w.Sens[i].ID()
		var want *gpsgen.Sensor
		for _, x := range m.sensors {
			if w.Sens[x].ID() == id {
				want = w.Sens[x]
			}
		}
		got, ok := d.SensorByID(id)
		if got != want || ok != (want != nil) {
			fail("sensors", "SensorByID(#%d) found=%v", i, ok)
		}
	}
	for _, id := range []string{"", "unknown", strings.Repeat("s", 40), strings.ToUpper(w.Sens[0].ID()) + "x"} {
		if got, ok := d.SensorByID(id); ok || got != nil {
			fail("sensors", "SensorByID(%q) found a sensor", id)
		}
	}
	slist := d.Sensors()
	if len(slist) != len(m.sensors) {
		fail("sensors", "Sensors lists %d sensors", len(slist))
	}
	for i := range slist {
		if i < len(m.sensors) && slist[i] != w.Sens[m.sensors[i]] {
			fail("sensors", "Sensors()[%d] is another sensor", i)
		}
		slist[i] = nil
	}
	_ = append(slist[:0], w.Sens[2], w.Sens[2], w.Sens[2])
	for stop := 0; stop <= len(m.sensors); stop++ {
		n, bad := 0, ""
		d.EachSensor(func(i int, s *gpsgen.Sensor) bool {
			if i != n || i >= len(m.sensors) || s != w.Sens[m.sensors[i]] {
				bad = fmt.Sprintf("EachSensor gives another sensor at call %d, index %d", n, i)
			}
			n++
			return n <= stop
		})
		want := stop + 1
		if want > len(m.sensors) {
			want = len(m.sensors)
		}
		if bad == "" && n != want {
			bad = fmt.Sprintf("EachSensor, stopped after %d, made %d calls, expected %d", stop+1, n, want)
		}
		if bad != "" {
			fail("each", "%s", bad)
		}
	}
	// labels
	if d.ID() != "dev" || d.Model() != m.model || d.UserID() != m.user || d.Descr() != m.descr || d.Color() != m.color {
		fail("labels", "labels are %q %q %q %q %q", d.ID(), d.Model(), d.UserID(), d.Descr(), d.Color())
	}
	st, sn := d.State(), d.Snapshot()
	if st.Id != "dev" || st.Model != m.model || st.UserId != m.user || st.Description != m.descr || st.Color != m.color {
		fail("labels", "published labels are %q %q %q %q %q", st.Id, st.Model, st.UserId, st.Description, st.Color)
	}
	if sn.Id != "dev" || sn.Model != m.model || sn.UserId != m.user || sn.Descr != m.descr || sn.Color != m.color {
		fail("labels", "saved labels are %q %q %q %q %q", sn.Id, sn.Model, sn.UserId, sn.Descr, sn.Color)
	}
	if len(sn.Sensors) != len(m.sensors) || len(sn.Navigator.Routes) != len(m.routes) {
		fail("saved", "%d routes and %d sensors saved", len(sn.Navigator.Routes), len(sn.Sensors))
		return
	}
	for i, x := range m.sensors {
		if sn.Sensors[i].Id != w.Sens[x].ID() || sn.Sensors[i].Name != w.Sens[x].Name() {
			fail("saved", "sensor %d saved as %s %s", i, sn.Sensors[i].Id, sn.Sensors[i].Name)
		}
	}
	for i, x := range m.routes {
		if sn.Navigator.Routes[i].Id != w.Pool[x].ID() {
			fail("saved", "route %d saved as %s", i, sn.Navigator.Routes[i].Id)
		}
	}
	if m := routesDiff(d, st, true); m != "" {
		fail("published", "%s", m)
	}
	if m := sensorsDiff(d, st, false); m != "" {
		fail("published", "%s", m)
	}
	// an edit of one kind leaves the others alone
	p, o := c.Pre, c.Post
	switch c.Op.Kind {
	case "label", "sensor":
		if p.place() != o.place() || p.Dur != o.Dur {
			fail("disturb", "the edit moved the tracker: %s -> %s", p.place(), o.place())
		}
	}
}

func kind(k string, ops ...SeqOp) []SeqOp {
	for i := range ops {
		ops[i].Kind = k
	}
	return ops
}

func collOps() []SeqOp {
	var ops []SeqOp
	ops = append(ops, collAddRoutes(0), collAddRoutes(1), collAddRoutes(2), collAddRoutes(3), collAddRoutes(1, 0), collAddRoutes(2, -1, 2, 0), collAddRoutes(-1), collAddRoutes())
	ops = append(ops, collRemoveRoute("route-0"), collRemoveRoute("r"), collRemoveRoute(longID), collRemoveRoute(longID+"r"), collRemoveRoute(""), collRemoveRoute("unknown"), collRemoveRoute("rr"))
	ops = append(ops, SeqOp{Name: "ResetRoutes", Run: func(w *World) interface{} {
		n := len(cm(w).routes)
		cm(w).routes = nil
		return expectRes{w.D.ResetRoutes(), n > 0}
	}})
	byPos := func(i int) func(w *World) string { return func(w *World) string { return w.Sens[i].ID() } }
	is := func(s string) func(w *World) string { return func(w *World) string { return s } }
	ops = append(ops, kind("sensor", collAddSensors(0), collAddSensors(1), collAddSensors(2), collAddSensors(3), collAddSensors(2, 0, 2), collAddSensors(-1, 1), collAddSensors(),
		collRemoveSensor("#0", byPos(0)), collRemoveSensor("#1", byPos(1)), collRemoveSensor("#2", byPos(2)), collRemoveSensor("empty", is("")), collRemoveSensor("unknown", is("unknown")),
		SeqOp{Name: "ResetSensors", Run: func(w *World) interface{} { cm(w).sensors = nil; w.D.ResetSensors(); return nil }})...)
	return ops
}

func labelOps() []SeqOp {
	return kind("label", collSetModel("abc", true), collSetModel(strings.Repeat("m", 64), true), collSetModel("", false), collSetModel("ab", false), collSetModel(strings.Repeat("m", 65), false),
		SeqOp{Name: "SetUserID(u)", Run: func(w *World) interface{} { cm(w).user = "u"; return expectRes{w.D.SetUserID("u"), nil} }},
		SeqOp{Name: "SetUserID()", Run: func(w *World) interface{} { cm(w).user = ""; return expectRes{w.D.SetUserID(""), nil} }},
		SeqOp{Name: "SetDescription(d)", Run: func(w *World) interface{} { cm(w).descr = "d"; w.D.SetDescription("d"); return nil }},
		SeqOp{Name: "SetDescription()", Run: func(w *World) interface{} { cm(w).descr = ""; w.D.SetDescription(""); return nil }},
		collSetColor(rgb(1, 0, 0), "#ff0000"), collSetColor(rgb(0, 0, 0), "#000000"), collSetColor(rgb(1.01, 0, 0), ""), collSetColor(rgb(0, -0.01, 0), ""), collSetColor(rgb(0, 0, math.Inf(1)), ""))
}

func disturbOps() []SeqOp {
	return []SeqOp{opStep(1), opStep(100), opMoveRoute(1), opUpdate(), opDest(30),
		{Name: "save+restore", Kind: "restore", Run: func(w *World) interface{} {
			b, err := gpsgen.EncodeTracker(w.D)
			must(err)
			d, err := gpsgen.DecodeTracker(b)
			must(err)
			w.adoptBy(d)
			return nil
		}}}
}

// adoptBy puts the restored objects at the pool positions the model uses.
func (w *World) adoptBy(d *gpsgen.Device) {
	m := cm(w)
	w.D = d
	for i, x := range m.routes {
		w.Pool[x] = d.RouteAt(i)
	}
	for i, x := range m.sensors {
		w.Sens[x] = d.SensorAt(i)
	}
}

func init() {
	register(&Check{ID: "C22", Level: "model_checking",
		Rule:        "a state is a distinct (reference collections, snapshot, published state); every operation is executed from every state up to the depth bound and every reading compared with the reference",
		Assumptions: []string{"ids of 1 to 36 characters", "random draws fixed"},
		Jobs: func(tier string) []Job {
			canonC := func(w *World) string { return cm(w).String() + canonDev(w.D) }
			onlyModel := func(w *World) string { return cm(w).String() }
			var jobs []Job
			add := func(name string, ops []SeqOp, depth int, canon func(w *World) string) {
				s := &Seq{Name: "C22 " + name, Draw: []float64{0.5}, New: collWorld, Ops: ops, Depth: depth, Check: judgeColl, Canon: canon, Coarse: strings.HasSuffix(name, "all reachable")}
				jobs = append(jobs, Job{Name: s.Name, Variant: Plain, Run: func(j *J) { j.BFS(s) }})
			}
			// all reachable collections: the model's state space is finite and explored completely
			add("collections, all reachable", collOps(), 12, onlyModel)
			add("collections and labels", append(append(collOps(), labelOps()...), disturbOps()...), pick(tier, 4, 5), canonC)
			add("labels, all reachable", append(labelOps(), disturbOps()...), 12, onlyModel)
			few := []SeqOp{collAddRoutes(0), collAddRoutes(1), collAddRoutes(3), collRemoveRoute("route-0"), collRemoveRoute("r"), collAddSensors(0), collAddSensors(2, 1), collRemoveSensor("#0", func(w *World) string { return w.Sens[0].ID() })}
			add("collections, deep", append(few, disturbOps()...), pick(tier, 6, 8), canonC)
			// every batch of additions, to empty and to filled trackers
			for start := -1; start < 3; start++ {
				start := start
				var ops []SeqOp
				var rec func(idx []int)
				rec = func(idx []int) {
					c := append([]int(nil), idx...)
					ops = append(ops, collAddRoutes(c...), kind("sensor", collAddSensors(c...))[0])
					if len(idx) < pick(tier, 5, 6) {
						for i := -1; i < 4; i++ {
							rec(append(c, i))
						}
					}
				}
				rec(nil)
				s := &Seq{Name: fmt.Sprintf("C22 batches from %d", start), Draw: []float64{0.5}, New: func() *World {
					w := collWorld()
					if start >= 0 {
						collAddRoutes(start).Run(w)
						collAddSensors(start).Run(w)
					}
					return w
				}, Ops: ops, Depth: 1, Check: judgeColl, Canon: onlyModel}
				jobs = append(jobs, Job{Name: s.Name, Variant: Plain, Run: func(j *J) { j.BFS(s) }})
			}
			jobs = append(jobs, navCollJob(pick(tier, 6, 8)))
			return jobs
		}})
}

// navCollJob does the same for a navigator on its own.
func navCollJob(depth int) Job {
	return Job{Name: "C22 navigator", Variant: Plain, Run: func(j *J) {
		ids := []string{"route-0", "r", longID, "route-0"}
		type model struct{ rs []int }
		type op struct {
			name string
			run  func(n *navigator.Navigator, pool []*navigator.Route, m *model) string
		}
		add := func(idx ...int) op {
			return op{fmt.Sprintf("AddRoute(%v)", idx), func(n *navigator.Navigator, pool []*navigator.Route, m *model) string {
				var rs []*navigator.Route
				for _, i := range idx {
					if i < 0 {
						rs = append(rs, nil)
						continue
					}
					rs = append(rs, pool[i])
					if !has(m.rs, func(x int) bool { return ids[x] == ids[i] }) {
						m.rs = append(m.rs, i)
					}
				}
				if err := n.AddRoute(rs...); (err != nil) != (len(idx) == 0) {
					return fmt.Sprintf("AddRoute returned %v", err)
				}
				return ""
			}}
		}
		remove := func(id string) op {
			return op{fmt.Sprintf("RemoveRoute(%q)", id), func(n *navigator.Navigator, pool []*navigator.Route, m *model) string {
				var ok bool
				m.rs, ok = drop(m.rs, func(x int) bool { return ids[x] == id })
				if got := n.RemoveRoute(id); got != ok {
					return fmt.Sprintf("RemoveRoute returned %v", got)
				}
				return ""
			}}
		}
		ops := []op{add(0), add(1), add(2), add(3), add(2, -1, 0), add(), add(-1), remove("route-0"), remove("r"), remove(longID), remove(longID + "r"), remove(""),
			{"ResetRoutes", func(n *navigator.Navigator, pool []*navigator.Route, m *model) string {
				k := len(m.rs)
				m.rs = nil
				if got := n.ResetRoutes(); got != (k > 0) {
					return fmt.Sprintf("ResetRoutes returned %v with %d routes", got, k)
				}
				return ""
			}},
			{"NextLocation(4,2)", func(n *navigator.Navigator, pool []*navigator.Route, m *model) string {
				n.NextLocation(4, 2)
				return ""
			}},
		}
		seen := map[string]bool{}
		frontier := [][]int{nil}
		for dpt := 0; dpt <= depth && len(frontier) > 0; dpt++ {
			var next [][]int
			for _, p := range frontier {
				if j.Expired("C22 navigator") {
					return
				}
				resetWorld()
				cs := "navigator"
				for _, k := range p {
					cs += "; " + ops[k].name
				}
				if !j.Want(cs) && j.Replay != "" && !strings.HasPrefix(j.Replay, cs) {
					continue
				}
				j.Case(cs)
				ok := j.Protect("C22 navigator/panic", cs, func() {
					n, err := navigator.New(navigator.SkipOfflineMode())
					must(err)
					w := collWorld()
					m := &model{}
					bad := ""
					for _, k := range p {
						bad = ops[k].run(n, w.Pool, m)
					}
					j.Transition()
					j.Eval()
					if bad == "" {
						bad = navCollDiff(n, w.Pool, m.rs)
					}
					if bad != "" {
						j.Fail("C22 navigator/collection", cs, "after %s: %s; it should hold %v", cs, bad, m.rs)
						return
					}
					key := fmt.Sprint(m.rs) + canon(n.Snapshot()) + heapKey(n, w.Pool)
					if seen[key] {
						return
					}
					seen[key] = true
					j.State()
					for k := range ops {
						next = append(next, append(append([]int(nil), p...), k))
					}
				})
				if !ok {
					return
				}
			}
			frontier = next
		}
		j.Note("C22 navigator", fmt.Sprintf("%d states", len(seen)))
	}}
}

func navCollDiff(n *navigator.Navigator, pool []*navigator.Route, rs []int) string {
	if n.NumRoutes() != len(rs) || len(n.Routes()) != len(rs) {
		return fmt.Sprintf("NumRoutes %d, Routes %d", n.NumRoutes(), len(n.Routes()))
	}
	for i := -1; i < len(rs)+2; i++ {
		var want *navigator.Route
		if i >= 0 && i < len(rs) {
			want = pool[rs[i]]
			if n.Routes()[i] != want {
				return fmt.Sprintf("Routes()[%d] is another route", i)
			}
		}
		if n.RouteAt(i) != want {
			return fmt.Sprintf("RouteAt(%d) is another route", i)
		}
	}
	list := n.Routes()
	for i := range list {
		list[i] = nil
	}
	for i := range rs {
		if n.RouteAt(i) != pool[rs[i]] {
			return "writing to the list returned by Routes changed the navigator"
		}
	}
	for _, r := range pool {
		var want *navigator.Route
		for _, x := range rs {
			if pool[x].ID() == r.ID() {
				want = pool[x]
			}
		}
		got, err := n.RouteByID(r.ID())
		if got != want || (err != nil) != (want == nil) {
			return fmt.Sprintf("RouteByID(%q) gives %v, error %v", r.ID(), got, err)
		}
	}
	for _, id := range []string{"", "unknown", longID + "r"} {
		if got, err := n.RouteByID(id); got != nil || err == nil {
			return fmt.Sprintf("RouteByID(%q) found a route", id)
		}
	}
	for stop := 0; stop <= len(rs); stop++ {
		k, bad := 0, ""
		n.EachRoute(func(i int, r *navigator.Route) bool {
			if i != k || i >= len(rs) || r != pool[rs[i]] {
				bad = fmt.Sprintf("EachRoute gives another route at call %d, index %d", k, i)
			}
			k++
			return k <= stop
		})
		want := stop + 1
		if want > len(rs) {
			want = len(rs)
		}
		if bad == "" && k != want {
			bad = fmt.Sprintf("EachRoute, stopped after %d, made %d calls", stop+1, k)
		}
		if bad != "" {
			return bad
		}
	}
	return ""
}
