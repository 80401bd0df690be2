package harness

import (
	"fmt"
	"strings"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
)

// Lists of many routes, tracks, segments, edits and properties: numbers around
// the powers of two at which narrower representations would give out.

type largeList struct {
	name string
	make func() []*navigator.Route
}

func zigzag(at geo.LatLonPoint, n int) []geo.LatLonPoint {
	pts := make([]geo.LatLonPoint, n+1)
	for i := range pts {
		pts[i] = ll(at.Lat+float64(i%7)*1e-4+float64(i)*1e-6, at.Lon+float64(i%5)*1e-4+float64(i)*2e-6)
	}
	return pts
}

func zigzagTrack(id string, at geo.LatLonPoint, n int) *navigator.Track {
	t, err := navigator.RestoreTrack(id, "#010203", zigzag(at, n))
	must(err)
	return t
}

func largeLists(tier string) (out []largeList) {
	add := func(name string, mk func() []*navigator.Route) { out = append(out, largeList{name, mk}) }
	counts := []int{100, 127, 128, 129, 255, 256, 257, 300}
	long := []int{127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4096}
	if tier == "thorough" {
		counts = append(counts, 1000, 1024, 4096)
		long = append(long, 32768, 65535, 65536, 65537)
	}
	for _, n := range long {
		n := n
		add(fmt.Sprintf("a track of %d segments", n), func() []*navigator.Route {
			r := navigator.RestoreRoute("route-0", "#0a0b0c", nil)
			return []*navigator.Route{r.AddTrack(zigzagTrack("t0", ll(10, 20), n)).AddTrack(zigzagTrack("t1", ll(11, 20), 1))}
		})
	}
	for _, n := range counts {
		n := n
		add(fmt.Sprintf("a route of %d tracks", n), func() []*navigator.Route {
			r := navigator.RestoreRoute("route-0", "#0a0b0c", nil)
			for i := 0; i < n; i++ {
				t := zigzagTrack(fmt.Sprintf("t%d", i), ll(10+float64(i)/100, 20), 1+i%2)
				must(t.ChangeName(fmt.Sprintf("track %d", i)))
				t.Props().Set("n", fmt.Sprintf("text %d", i))
				r.AddTrack(t)
			}
			return []*navigator.Route{r}
		})
		add(fmt.Sprintf("%d routes", n), func() []*navigator.Route {
			var rs []*navigator.Route
			for i := 0; i < n; i++ {
				r := navigator.RestoreRoute(fmt.Sprintf("route-%d", i), "#0a0b0c", nil)
				must(r.ChangeName(fmt.Sprintf("route %d", i)))
				rs = append(rs, r.AddTrack(zigzagTrack(fmt.Sprintf("t%d", i), ll(10+float64(i)/100, 20), 1+i%2)))
			}
			return rs
		})
		add(fmt.Sprintf("%d properties", n), func() []*navigator.Route {
			r := navigator.RestoreRoute("route-0", "#0a0b0c", nil)
			t := zigzagTrack("t0", ll(10, 20), 2)
			for i := 0; i < n; i++ {
				r.Props().Set(fmt.Sprintf("key%d", i), fmt.Sprintf("value %d", i))
				t.Props().Set(fmt.Sprintf("key%d", i), strings.Repeat("v", i))
			}
			return []*navigator.Route{r.AddTrack(t)}
		})
	}
	for _, n := range []int{99, 100, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 100000} {
		n := n
		add(fmt.Sprintf("%d edits", n), func() []*navigator.Route {
			r := navigator.RestoreRoute("route-0", "#0a0b0c", nil)
			t := zigzagTrack("t0", ll(10, 20), 2)
			r.AddTrack(t)
			for i := 0; i < n; i++ {
				must(r.ChangeName("a name"))
				must(t.ChangeName("another name"))
			}
			return []*navigator.Route{r}
		})
	}
	return
}

func largeListsJob(name, tier string, judge func(j *J, cs string, rs []*navigator.Route)) Job {
	return Job{Name: name, Variant: Plain, Shards: 4, Run: func(j *J) {
		for i, l := range largeLists(tier) {
			if !j.Mine(i) || !j.Want(l.name) || j.Expired(name) {
				continue
			}
			j.Case(l.name)
			j.State()
			j.Protect(name+"/panic", l.name, func() {
				resetWorld()
				judge(j, l.name, l.make())
			})
		}
		j.Sample(name)
	}}
}

// largeTrackersJob saves and restores trackers on such lists, at the ends and in the
// middle of them, after long times and long offline periods, and goes on with both.
func largeTrackersJob(name, tier string) Job {
	return Job{Name: name, Variant: Plain, Shards: 8, Run: func(j *J) {
		type drive struct {
			name string
			do   func(d *gpsgen.Device)
		}
		end := func(d *gpsgen.Device) (r, t, s int) {
			r = d.NumRoutes() - 1
			t = d.RouteAt(r).NumTracks() - 1
			return r, t, d.RouteAt(r).TrackAt(t).NumSegments() - 1
		}
		drives := []drive{
			{"at the start", func(d *gpsgen.Device) { d.Next(1) }},
			{"on the last segment", func(d *gpsgen.Device) { r, t, s := end(d); d.MoveToSegment(r, t, s); d.Next(1) }},
			{"on the last segment of the first track", func(d *gpsgen.Device) {
				d.MoveToSegment(0, 0, d.RouteAt(0).TrackAt(0).NumSegments()-1)
				d.Next(2)
			}},
			{"half way", func(d *gpsgen.Device) { d.DestinationTo(d.Distance() / 2); d.Next(1) }},
			{"after 40 days", func(d *gpsgen.Device) { d.Next(1); d.Next(40 * 86400); d.Next(1) }},
			{"after 100 years", func(d *gpsgen.Device) { d.Next(1); d.Next(36525 * 86400); d.Next(1) }},
			{"after 300 steps", func(d *gpsgen.Device) {
				for i := 0; i < 300; i++ {
					d.Next(0.75)
				}
			}},
			{"offline", func(d *gpsgen.Device) { d.Next(1); d.ToOffline(); d.Next(1) }},
		}
		n := 0
		for _, l := range largeLists(tier) {
			for di, dr := range drives {
				n++
				cs := l.name + ", " + dr.name
				if !j.Mine(n) || !j.Want(cs) || j.Expired(name) {
					continue
				}
				if strings.HasSuffix(l.name, "properties") && di > 1 {
					continue
				}
				j.Case(cs)
				j.State()
				j.Eval()
				j.Protect(name+"/panic", cs, func() {
					resetWorld()
					mk := func() *gpsgen.Device {
						d := newDev("dev", offline(3500, 3590), batteryOpt(0, 10*365*24*time.Hour), static(3))
						for i := 0; i < 3; i++ {
							d.AddSensor(mkSensor(i))
						}
						must(d.AddRoute(l.make()...))
						dr.do(d)
						return d
					}
					d := mk()
					b, err := gpsgen.EncodeTracker(d)
					if err != nil {
						j.Fail(name+"/encode", cs, "%s: %v", cs, err)
						return
					}
					r, err := gpsgen.DecodeTracker(b)
					if err != nil {
						j.Fail(name+"/decode", cs, "%s: %v", cs, err)
						return
					}
					same := func(when string) bool {
						d.Update()
						r.Update()
						if x, y := view(d), view(r); x != y {
							j.Fail(name+"/restored", cs, "%s, %s: the restored tracker differs: %s", cs, when, whereDiffers(x, y))
							return false
						}
						if x, y := canon(d.Snapshot())+stateNoStatus(d), canon(r.Snapshot())+stateNoStatus(r); x != y {
							j.Fail(name+"/restored", cs, "%s, %s: the restored tracker's snapshot or state differs: %s", cs, when, whereDiffers(x, y))
							return false
						}
						return true
					}
					if !same("at once") {
						return
					}
					for _, c := range []drive{
						{"after a step", func(d *gpsgen.Device) { d.Next(1) }},
						{"after a long step", func(d *gpsgen.Device) { d.Next(500) }},
						{"after the next route", func(d *gpsgen.Device) { d.ToNextRoute(); d.Next(3) }},
						{"after going back", func(d *gpsgen.Device) { d.MoveToSegment(0, 0, 0); d.Next(1) }},
					} {
						j.Transition()
						c.do(d)
						c.do(r)
						if !same(c.name) {
							return
						}
					}
				})
			}
		}
		j.Sample(name)
	}}
}

// whereDiffers shows where two long texts part.
func whereDiffers(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-60, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("%q, not %q", cut(b), cut(a))
}
