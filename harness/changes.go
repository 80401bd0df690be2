package harness

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
)

// orderedSubsets are all lists without repetition over 0..n-1.
func orderedSubsets(n int) (out [][]int) {
	var walk func(l []int)
	walk = func(l []int) {
		out = append(out, append([]int(nil), l...))
	next:
		for i := 0; i < n; i++ {
			for _, x := range l {
				if x == i {
					continue next
				}
			}
			walk(append(l, i))
		}
	}
	walk(nil)
	return
}

// changesJob runs a generator that holds the list A at one tick and the list B
// at the next, for every pair of lists over n trackers: the records of each
// tick are those of its list, in order, and the trackers of the list advance
// by the interval, the others not at all.
func changesJob(prop string, n, workers, shards int) Job {
	name := fmt.Sprintf("%s changes between ticks trackers=%d workers=%d", prop, n, workers)
	return Job{Name: name, Variant: Plain, Shards: shards, Run: func(j *J) {
		lists := orderedSubsets(n)
		for ai := range lists {
			if !j.Mine(ai) {
				continue
			}
			cs := fmt.Sprintf("%s from %v", name, lists[ai])
			if !j.Want(cs) {
				continue
			}
			if j.Expired(name) {
				return
			}
			j.Case(cs)
			j.Eval()
			j.State()
			j.Distinct(cs)
			synctest.Test(j.T, func(t *testing.T) {
				resetWorld()
				I := 2 * time.Second
				g := newGen(I, 1024, workers)
				r := &rec{}
				r.hook(g)
				var devs []*gpsgen.Device
				for i := 0; i < n; i++ {
					d := newDev(fmt.Sprintf("d%d", i), skipOff, static(0.001))
					must(d.AddRoute(longRoute()))
					devs = append(devs, d)
				}
				want := make([]float64, n)
				var on []int
				go g.Run()
				synctest.Wait()
				time.Sleep(I / 2)
				// set attaches the list l in order and lets one tick pass
				set := func(l []int, hist string) bool {
					for _, x := range on {
						must(g.Detach(devs[x].ID()))
					}
					on = l
					for _, x := range on {
						must(g.Attach(devs[x]))
					}
					r.lock()
					r.packets = nil
					r.unlock()
					time.Sleep(I)
					synctest.Wait()
					j.Transition()
					recs, bad := r.decode()
					if bad != "" {
						j.Fail(name+"/packet", cs, "%s: %s", hist, bad)
						return false
					}
					var got, ids []string
					for _, d := range recs {
						got = append(got, d.Id)
					}
					for _, x := range on {
						ids = append(ids, devs[x].ID())
						want[x] += I.Seconds()
					}
					if workers > 1 { // in whatever order the workers hand out their parts
						sort.Strings(got)
						sort.Strings(ids)
					}
					if strings.Join(got, ",") != strings.Join(ids, ",") {
						j.Fail(name+"/records", cs, "%s: the tick hands out %v, want %v", hist, got, ids)
						return false
					}
					for x, d := range devs {
						if q := d.Duration(); q != want[x] {
							j.Fail(name+"/duration", cs, "%s: tracker %d has duration %v, want %v", hist, x, q, want[x])
							return false
						}
					}
					for _, d := range recs {
						for x := range devs {
							if devs[x].ID() == d.Id && (d.Duration != want[x] || d.Tick != I.Seconds()) {
								j.Fail(name+"/record", cs, "%s: record of tracker %d has duration %v and tick %v, want %v and %v", hist, x, d.Duration, d.Tick, want[x], I.Seconds())
								return false
							}
						}
					}
					return true
				}
				for bi := range lists {
					hist := fmt.Sprintf("list %v, then %v", lists[ai], lists[bi])
					if !set(lists[ai], hist) || !set(lists[bi], hist) {
						break
					}
				}
				g.Close()
				synctest.Wait()
				j.Trace()
			})
		}
		j.Sample(fmt.Sprintf("%s: all %d x %d pairs of lists", name, len(lists), len(lists)))
	}}
}
