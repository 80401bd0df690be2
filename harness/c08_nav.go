package harness

import (
	"fmt"
	"strings"

	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/vshim"
)

// navEndJob runs every history of steps, moves and edits of a navigator on its
// own and asks it whether the walk has ended: once after each end, unless it
// was moved, reset or its routes changed since.
func navEndJob(f fixture, skip bool, depth int) Job {
	name := fmt.Sprintf("C08 end of the walk %s skip=%v", f.name, skip)
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		type world struct {
			n     *navigator.Navigator
			rs    []*navigator.Route
			ended bool
		}
		type op struct {
			name string
			run  func(w *world) string
		}
		build := func() *world {
			resetWorld()
			vshim.SetConst(0)
			opts := []navigator.Option{navigator.WithOffline(1, 2)}
			if skip {
				opts = []navigator.Option{navigator.SkipOfflineMode()}
			}
			n, err := navigator.New(opts...)
			must(err)
			w := &world{n: n, rs: f.build()}
			must(n.AddRoute(w.rs...))
			return w
		}
		step := func(tick float64) op {
			return op{fmt.Sprintf("NextLocation(%v,2)", tick), func(w *world) string {
				n := w.n
				off := n.IsOffline()
				last := false
				if r := n.CurrentRoute(); r != nil {
					last = n.RouteIndex() == n.NumRoutes()-1 && n.TrackIndex() >= r.NumTracks()-1
				}
				at, dist, total := n.Location(), n.CurrentRouteDistance(), n.CurrentDistance()
				ok := n.NextLocation(tick, 2)
				switch {
				case off && (ok || n.Location() != at || n.CurrentRouteDistance() != dist || n.CurrentDistance() != total):
					return "an offline navigator moved"
				case off:
				case !ok && last:
					w.ended = true
					if n.RouteIndex() != 0 || n.TrackIndex() != 0 || n.SegmentIndex() != 0 || n.CurrentRouteDistance() != 0 || n.CurrentTrackDistance() != 0 || n.CurrentSegmentDistance() != 0 {
						return fmt.Sprintf("after the end of the walk it is at %d/%d/%d, distances %v %v %v", n.RouteIndex(), n.TrackIndex(), n.SegmentIndex(), n.CurrentRouteDistance(), n.CurrentTrackDistance(), n.CurrentSegmentDistance())
					}
				}
				return ""
			}}
		}
		move := func(name string, run func(w *world) bool) op {
			return op{name, func(w *world) string {
				if run(w) {
					w.ended = false
				}
				return ""
			}}
		}
		ops := []op{step(1), step(4), step(30),
			{"IsFinish", func(w *world) string {
				want := w.ended
				w.ended = false
				if got := w.n.IsFinish(); got != want {
					return fmt.Sprintf("IsFinish %v, want %v", got, want)
				}
				if w.n.IsFinish() {
					return "IsFinish reports the same end twice"
				}
				return ""
			}},
			move("MoveToRoute(0)", func(w *world) bool { return w.n.MoveToRoute(0) }),
			move("MoveToRoute(1)", func(w *world) bool { return w.n.MoveToRoute(1) }),
			move("MoveToTrack(0,1)", func(w *world) bool { return w.n.MoveToTrack(0, 1) }),
			move("MoveToSegment(0,0,1)", func(w *world) bool { return w.n.MoveToSegment(0, 0, 1) }),
			move("MoveToRoute(9)", func(w *world) bool { return w.n.MoveToRoute(9) }),
			move("NextRoute", func(w *world) bool { return w.n.NextRoute() }),
			move("PrevRoute", func(w *world) bool { return w.n.PrevRoute() }),
			move("DestinationTo(5)", func(w *world) bool { return w.n.DestinationTo(5) }),
			move("DestinationTo(0.5)", func(w *world) bool { return w.n.DestinationTo(0.5) }),
			move("DestinationTo(end)", func(w *world) bool { return w.n.DestinationTo(1e9) }),
			move("Reset", func(w *world) bool { w.n.Reset(); return true }),
			move("AddRoute(present)", func(w *world) bool {
				k := w.n.NumRoutes()
				_ = w.n.AddRoute(w.rs...)
				return w.n.NumRoutes() != k
			}),
			move("AddRoute(new)", func(w *world) bool {
				k := w.n.NumRoutes()
				_ = w.n.AddRoute(spareRoute())
				return w.n.NumRoutes() != k
			}),
			move("RemoveRoute(0)", func(w *world) bool { return w.n.RemoveRoute(w.rs[0].ID()) }),
			move("RemoveRoute(unknown)", func(w *world) bool { return w.n.RemoveRoute("unknown") }),
			{"ToOffline", func(w *world) string { w.n.ToOffline(); return "" }},
		}
		seen := map[string]bool{}
		frontier := [][]int{nil}
		for d := 0; d <= depth && len(frontier) > 0; d++ {
			var next [][]int
			for _, p := range frontier {
				if j.Expired(name) {
					return
				}
				cs := name
				for _, k := range p {
					cs += "; " + ops[k].name
				}
				if j.Replay != "" && j.Replay != cs && !strings.HasPrefix(j.Replay, cs) {
					continue
				}
				j.Case(cs)
				if !j.Protect(name+"/panic", cs, func() {
					w := build()
					for i, k := range p {
						if bad := ops[k].run(w); bad != "" && i == len(p)-1 {
							j.Fail(name+"/end", cs, "%s: %s", cs, bad)
							return
						}
					}
					j.Transition()
					j.Eval()
					key := fmt.Sprint(w.ended) + canon(w.n.Snapshot()) + heapKey(w.n, w.rs)
					if seen[key] {
						return
					}
					seen[key] = true
					j.State()
					for k := range ops {
						next = append(next, append(append([]int(nil), p...), k))
					}
				}) {
					return
				}
			}
			frontier = next
		}
		j.Note(name, fmt.Sprintf("depth %d, %d operations, %d states", depth, len(ops), len(seen)))
	}}
}
