package harness

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
)

// ---- kinds: what a tracker is doing makes no difference to its delivery ----

var trackerKinds = []string{"moving", "noroutes", "bare", "emptied", "offline", "finishing", "trackless", "sensors", "lowbattery", "long", "standing", "busy", "twin"}

// kindOf makes a tracker; stop, when set, ends what keeps it busy.
func kindOf(kind string, i int) (d *gpsgen.Device, start, stop func()) {
	id := fmt.Sprintf("k%d", i)
	start, stop = func() {}, func() {}
	switch kind {
	case "noroutes":
		d = newDev(id, skipOff, static(1))
		d.AddSensor(mkSensor(0))
	case "bare":
		d = newDev(id, skipOff, static(1))
	case "emptied":
		d = newDev(id, skipOff, static(1))
		must(d.AddRoute(longRoute()))
		d.Next(1)
		d.ResetRoutes()
	case "offline":
		d = newDev(id, offline(2, 3), static(1))
		must(d.AddRoute(longRoute()))
		d.ToOffline()
	case "finishing":
		d = newDev(id, skipOff, static(2))
		must(d.AddRoute(route(lineTrack(10.5, 20.5, 5))))
	case "trackless":
		d = newDev(id, skipOff, static(1))
		must(d.AddRoute(navigator.NewRoute()))
	case "sensors":
		d = newDev(id, skipOff, static(1))
		must(d.AddRoute(longRoute()))
		d.AddSensor(mkSensor(0), mkSensor(1))
	case "lowbattery":
		d = newDev(id, offline(1, 2), static(1), batteryOpt(0, 3*time.Second))
		must(d.AddRoute(longRoute()))
	case "long":
		d = newDev(id, skipOff, static(1))
		must(d.AddRoute(longRoute()))
		d.SetDescription(strings.Repeat("long text ", 3000))
	case "standing":
		d = newDev(id, skipOff, static(0))
		must(d.AddRoute(longRoute()))
	case "busy":
		d = newDev(id, skipOff, static(1))
		must(d.AddRoute(longRoute()))
		ch := make(chan struct{})
		start = func() {
			go d.EachRoute(func(int, *navigator.Route) bool { <-ch; return false })
		}
		stop = func() { close(ch) }
	case "twin":
		d = newDev("twin", skipOff, static(1))
		must(d.AddRoute(longRoute()))
	default:
		d = newDev(id, skipOff, static(1))
		must(d.AddRoute(countRoute))
	}
	return
}

// runKinds checks that every tick delivers every tracker's state once.
func runKinds(j *J, key, cs string, packet, workers, ticks int, kinds []string) {
	synctest.Test(j.T, func(t *testing.T) {
		resetWorld()
		g := newGen(countI, packet, workers)
		r := &rec{}
		r.hook(g)
		var devs []*gpsgen.Device
		for i, k := range kinds {
			d, start, stop := kindOf(k, i)
			must(g.Attach(d))
			start()
			defer stop()
			devs = append(devs, d)
		}
		go g.Run()
		synctest.Wait()
		defer func() {
			g.Close()
			synctest.Wait()
		}()
		for tick := 1; tick <= ticks; tick++ {
			r.lock()
			r.packets, r.errs, r.problems, r.nexts = nil, nil, nil, 0
			r.unlock()
			time.Sleep(countI)
			synctest.Wait()
			r.lock()
			recs, bad := r.decode()
			errs := append([]string(nil), fmt.Sprint(r.errs))
			n := len(r.errs)
			r.unlock()
			if n > 0 || bad != "" {
				j.Fail(key+"/error", cs, "tick %d: error callback %v, packets: %s", tick, errs, bad)
				return
			}
			want := map[string]int{}
			for _, d := range devs {
				want[canon(d.State())]++
			}
			for _, p := range recs {
				j.Transition()
				want[canon(p)]--
			}
			var wrong []string
			for st, n := range want {
				if n != 0 {
					if len(st) > 300 {
						st = st[:300]
					}
					wrong = append(wrong, fmt.Sprintf("delivered %+d times too often: %s", -n, st))
				}
			}
			if len(wrong) > 0 {
				sort.Strings(wrong)
				j.Fail(key+"/delivery", cs, "tick %d: %d records for %d trackers\n%s", tick, len(recs), len(devs), strings.Join(wrong, "\n"))
				return
			}
		}
		j.Trace()
	})
}

func kindJobs(tier string) (jobs []Job) {
	n := pick(tier, 3, 4)
	for _, workers := range []int{1, 2, 5} {
		workers := workers
		name := fmt.Sprintf("kinds workers=%d", workers)
		jobs = append(jobs, Job{Name: name, Variant: Plain, Shards: pick(tier, 2, 8), Run: func(j *J) {
			k := 0
			var walk func(l []string)
			walk = func(l []string) {
				if len(l) > 0 {
					cs := name + " " + strings.Join(l, ",")
					k++
					if j.Mine(k) && j.Want(cs) && !j.Expired(name) {
						j.Case(cs)
						j.Eval()
						j.State()
						j.Distinct(cs)
						runKinds(j, "kinds", cs, 1024, workers, 4, l)
					}
				}
				if len(l) == n {
					return
				}
				for _, kind := range trackerKinds {
					walk(append(l[:len(l):len(l)], kind))
				}
			}
			walk(nil)
			j.Sample(fmt.Sprintf("%s: all sequences of up to %d of %v, four ticks each", name, n, trackerKinds))
		}})
	}
	name := "kinds in many"
	jobs = append(jobs, Job{Name: name, Variant: Plain, Shards: 4, Run: func(j *J) {
		k := 0
		for _, workers := range []int{1, 3} {
			for _, total := range []int{40, 1024, 1026} {
				for _, kind := range trackerKinds {
					for _, where := range []string{"first", "last", "boundary", "all"} {
						if where == "all" && (total > 40 && tier != "thorough") {
							continue
						}
						cs := fmt.Sprintf("%s workers=%d trackers=%d %s %s", name, workers, total, kind, where)
						k++
						if !j.Mine(k) || !j.Want(cs) || j.Expired(name) {
							continue
						}
						kinds := make([]string, total)
						for i := range kinds {
							on := where == "all" || where == "first" && i < 2 || where == "last" && i >= total-2 || where == "boundary" && i >= 1022 && i < 1025
							kinds[i] = "moving"
							if on {
								kinds[i] = kind
							}
						}
						j.Case(cs)
						j.Eval()
						j.State()
						j.Distinct(cs)
						runKinds(j, "kinds", cs, 1024, workers, 2, kinds)
					}
				}
			}
		}
		j.Sample(fmt.Sprintf("%s: each of %v at the start, the end, the packet boundary among 40, 1024 and 1026 trackers", name, trackerKinds))
	}})
	return
}
