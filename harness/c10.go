package harness

import (
	"fmt"
	"math"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/vshim"
)

func batteryOpt(min float64, charge time.Duration) devOpt {
	return func(o *gpsgen.DeviceOptions) { o.Battery.Min, o.Battery.ChargeTime = min, charge }
}

// opRestore replaces the tracker by its saved and restored copy.
func opRestore() SeqOp {
	return SeqOp{Name: "save+restore", Kind: "restore", Run: func(w *World) interface{} {
		b, err := gpsgen.EncodeTracker(w.D)
		must(err)
		d, err := gpsgen.DecodeTracker(b)
		must(err)
		w.D = d
		for i := 0; i < d.NumRoutes(); i++ {
			for k := range w.Pool {
				if w.Pool[k].ID() == d.RouteAt(i).ID() {
					w.Pool[k] = d.RouteAt(i)
				}
			}
		}
		return nil
	}}
}

// opRestoreOnto restores onto a tracker made with other options.
func opRestoreOnto(name string, mk func() *gpsgen.Device) SeqOp {
	return SeqOp{Name: "save+restore onto " + name, Kind: "restore", Run: func(w *World) interface{} {
		b, err := w.D.MarshalBinary()
		must(err)
		d := mk()
		must(d.UnmarshalBinary(b))
		w.D = d
		return nil
	}}
}

type offCfg struct {
	name     string
	min, max int // as configured
	lo, hi   int // half-open range of the draws
	skip     bool
	battery  time.Duration
	batMin   float64
	speed    float64
}

// lowAfter tells whether the battery is low after t more seconds, and whether
// that is too close to call.
func lowAfter(p *obs, t float64) (low, close bool) {
	b := p.Snap.Battery
	ct := time.Duration(b.ChargeTime).Seconds()
	v := b.Val + t
	charge := 100 - v/ct*100
	if ct == 0 {
		charge = -1
		if v == 0 {
			charge = 100
		}
	}
	return charge <= b.Min, math.Abs(charge-b.Min) < 1e-7 && charge != b.Min
}

func judgeOffline(cfg offCfg) func(c *Tx) {
	in := func(k int) bool { return k >= cfg.lo && k < cfg.hi }
	return func(c *Tx) {
		p, o := c.Pre, c.Post
		res, _ := c.Res.(bool)
		if cfg.skip {
			if o.K != 0 || o.Off || o.St.IsOffline || o.St.OfflineDuration != 0 {
				c.Fail("skip", "offline although offline mode is skipped: %d steps", o.K)
			}
		}
		if o.Off != (o.K > 0) {
			c.Fail("flag", "IsOffline is %v with %d steps remaining", o.Off, o.K)
		}
		switch c.Op.Kind {
		case "offline":
			if !cfg.skip && !in(o.K) {
				c.Fail("range", "ToOffline drew %d steps, range [%d,%d)", o.K, cfg.lo, cfg.hi)
			}
			if p.place() != o.place() && (p.R != o.R || p.T != o.T || p.S != o.S || p.Loc != o.Loc || p.Cur != o.Cur || p.CurSeg != o.CurSeg) {
				c.Fail("moved", "ToOffline moved the tracker: %s -> %s", p.place(), o.place())
			}
		case "restore":
			if o.K != p.K {
				c.Fail("restore", "%d offline steps remain after a restore, %d before", o.K, p.K)
			}
		case "move", "rel":
			if res && o.K != 0 {
				c.Fail("flag", "offline for %d steps after a move", o.K)
			}
		case "step":
			published := func() {
				if int(o.St.OfflineDuration) != o.K || o.St.IsOffline != (o.K > 0) {
					c.Fail("published", "published offline=%v/%d, remaining %d", o.St.IsOffline, o.St.OfflineDuration, o.K)
				}
			}
			still := func() bool {
				return p.R == o.R && p.T == o.T && p.S == o.S && p.Cur == o.Cur && p.CurRoute == o.CurRoute && p.CurTrack == o.CurTrack && p.CurSeg == o.CurSeg && p.Loc == o.Loc
			}
			low, close := lowAfter(p, c.Op.F)
			if close {
				return
			}
			if p.N == 0 {
				return
			}
			if low {
				if o.Snap.Battery.Val != 0 {
					c.Fail("battery", "battery at its minimum, but not restarted: discharged for %v s", o.Snap.Battery.Val)
				}
			} else if !eq(o.Snap.Battery.Val, p.Snap.Battery.Val+c.Op.F) {
				c.Fail("battery", "battery discharged for %v s, expected %v", o.Snap.Battery.Val, p.Snap.Battery.Val+c.Op.F)
			}
			if low && !cfg.skip {
				if !res && still() && in(o.K+1) && o.K+1 > 0 {
					published()
					return // offline for o.K+1 steps, this one included
				}
				if cfg.lo > 0 {
					c.Fail("battery", "battery low: step returned %v, %d offline steps remain, range [%d,%d): %s -> %s", res, o.K, cfg.lo, cfg.hi, p.place(), o.place())
					return
				}
				// drew zero steps: an ordinary step
				q := *p
				q.K = 0
				c2 := *c
				c2.Pre = &q
				judgeStep(&c2)
				return
			}
			if p.K > 0 {
				if res || !still() {
					c.Fail("moved", "an offline step returned %v: %s -> %s", res, p.place(), o.place())
				}
				if o.K != p.K-1 {
					c.Fail("countdown", "%d steps remain after an offline step, %d before", o.K, p.K)
				}
				published()
				return
			}
			judgeStep(c)
			published()
		default:
			if o.K != p.K {
				c.Fail("flag", "%s changed the remaining offline steps from %d to %d", c.Op.Name, p.K, o.K)
			}
		}
	}
}

func init() {
	register(&Check{ID: "C10", Level: "model_checking",
		Rule:        "a state is a distinct (snapshot, published state) of the tracker; every operation is executed from every state up to the depth bound for every draw policy, and every draw value of the small ranges is enumerated",
		Assumptions: []string{"random draws enumerated: 0, 1/4, 1/2, 3/4 and the largest below 1 per exploration, all values for the ranges of the draw job"},
		Jobs: func(tier string) []Job {
			cfgs := []offCfg{
				{name: "0..3", min: 0, max: 3, lo: 0, hi: 3, battery: 7 * time.Hour, speed: 3},
				{name: "2..5", min: 2, max: 5, lo: 2, hi: 5, battery: 7 * time.Hour, speed: 3},
				{name: "3..3", min: 3, max: 3, lo: 3, hi: 4, battery: 7 * time.Hour, speed: 3},
				{name: "1..2", min: 1, max: 2, lo: 1, hi: 2, battery: 7 * time.Hour, speed: 2.5},
				{name: "0..0", min: 0, max: 0, lo: 0, hi: 10, battery: 7 * time.Hour, speed: 3}, // documented default
				{name: "skip", skip: true, battery: 7 * time.Hour, speed: 3},
				{name: "battery 10s 0..3", min: 0, max: 3, lo: 0, hi: 3, battery: 10 * time.Second, speed: 2},
				{name: "battery 10s min 50 2..4", min: 2, max: 4, lo: 2, hi: 4, battery: 10 * time.Second, batMin: 50, speed: 2},
				{name: "battery 0s 1..3", min: 1, max: 3, lo: 1, hi: 3, battery: 0, speed: 2},
				{name: "battery 7s skip", skip: true, battery: 7 * time.Second, batMin: 10, speed: 2},
			}
			var jobs []Job
			draws := []float64{0, 0.25, 0.5, 0.75, 0.9999999}
			for _, fn := range []string{"two", "zero-segments", "one"} {
				f := fixtureByName(fn)
				for _, cfg := range cfgs {
					for _, draw := range draws {
						cfg, draw := cfg, draw
						opts := []devOpt{static(cfg.speed), offline(cfg.min, cfg.max), batteryOpt(cfg.batMin, cfg.battery)}
						if cfg.skip {
							opts = append(opts, skipOff)
						}
						ops := []SeqOp{opStep(1), opStep(3), opStep(9), opOffline(), opMoveTrack(0, 1), opMoveSeg(0, 0, 0), opRestore(), opUpdate(),
							opRestoreOnto("a skipping tracker", func() *gpsgen.Device { return newDev("other", skipOff) }),
							opRestoreOnto("an offline tracker", func() *gpsgen.Device {
								d := newDev("other", offline(7, 8))
								must(d.AddRoute(longRoute()))
								d.ToOffline()
								return d
							})}
						s := &Seq{Name: fmt.Sprintf("C10 %s %s draw=%v", fn, cfg.name, draw), Draw: []float64{draw}, New: devWorld(f, true, opts...),
							Ops: ops, Depth: pick(tier, 5, 8), Max: pick(tier, 20000, 60000), Check: judgeOffline(cfg)}
						jobs = append(jobs, Job{Name: s.Name, Variant: Plain, Run: func(j *J) { j.BFS(s) }})
					}
				}
			}
			// edits while offline do not shorten the period
			for _, fn := range []string{"two", "one"} {
				f := fixtureByName(fn)
				cfg := offCfg{name: "edits 2..5", min: 2, max: 5, lo: 2, hi: 5, battery: 7 * time.Hour, speed: 3}
				for _, draw := range []float64{0, 0.9} {
					ops := []SeqOp{opStep(2), opStep(9), opOffline(), opResetNav(), opDest(6), opRemoveRoute(0), opAddRoute(0), opRemoveTrack(0, 0), opUpdate(), opResetRoutes()}
					s := &Seq{Name: fmt.Sprintf("C10 %s %s draw=%v", fn, cfg.name, draw), Draw: []float64{draw}, New: devWorld(f, true, static(cfg.speed), offline(cfg.min, cfg.max), batteryOpt(0, cfg.battery)),
						Ops: ops, Depth: pick(tier, 5, 6), Max: pick(tier, 20000, 100000), Check: judgeOffline(cfg)}
					jobs = append(jobs, Job{Name: s.Name, Variant: Plain, Run: func(j *J) { j.BFS(s) }})
				}
			}
			// every draw of small ranges, wherever a period starts
			jobs = append(jobs, Job{Name: "C10 all draws", Variant: Plain, Run: func(j *J) {
				var ranges [][2]int
				for min := 0; min <= 4; min++ {
					for max := min; max <= 6; max++ {
						ranges = append(ranges, [2]int{min, max})
					}
				}
				ranges = append(ranges, [2]int{60, 62}, [2]int{119, 121}, [2]int{126, 129}, [2]int{254, 258}, [2]int{1023, 1025}, [2]int{3597, 3599})
				{
					for _, rg := range ranges {
						min, max := rg[0], rg[1]
						lo, hi := min, max
						if lo == hi {
							hi++
						}
						if min == 0 && max == 0 {
							lo, hi = 0, 10
						}
						for _, how := range []string{"ToOffline", "end of track", "low battery", "restored"} {
							cs := fmt.Sprintf("draws %d..%d %s", min, max, how)
							if !j.Want(cs) {
								continue
							}
							j.Case(cs)
							got := map[int]bool{}
							n := 240
							if max > 10 {
								n = 12
							}
							for i := 0; i < n; i++ {
								resetWorld()
								vshim.SetConst((float64(i) + 0.5) / float64(n))
								opts := []devOpt{static(3), offline(min, max)}
								if how == "low battery" {
									opts = append(opts, batteryOpt(0, time.Second))
								}
								d := newDev("dev", opts...)
								must(d.AddRoute(route(lineTrack(10, 20, 5), lineTrack(11, 20, 500))))
								k := func() int { return int(d.Snapshot().Navigator.OfflineIndex) }
								v := -1
								switch how {
								case "ToOffline":
									d.ToOffline()
									v = k()
								case "restored":
									b, err := gpsgen.EncodeTracker(d)
									must(err)
									d, err = gpsgen.DecodeTracker(b)
									must(err)
									d.ToOffline()
									v = k()
								case "end of track":
									d.Next(3)
									v = k()
								case "low battery":
									if d.Next(1) {
										v = 0
									} else {
										v = k() + 1
									}
								}
								// the period lasts exactly that long
								left := k()
								for s := 0; s < left; s++ {
									if d.Next(0.01) {
										j.Fail("C10 all draws/length", cs, "%s: moved after %d of %d offline steps", cs, s, left)
									}
								}
								if how != "low battery" && !d.Next(0.01) {
									j.Fail("C10 all draws/resume", cs, "%s: still not moving after %d offline steps", cs, left)
								}
								got[v] = true
								j.Eval()
							}
							for v := range got {
								if v < lo || v >= hi {
									j.Fail("C10 all draws/range", cs, "%s: an offline period of %d steps, range [%d,%d)", cs, v, lo, hi)
								}
							}
							for v := lo; v < hi; v++ {
								if !got[v] {
									j.Fail("C10 all draws/coverage", cs, "%s: no draw gives an offline period of %d steps, range [%d,%d)", cs, v, lo, hi)
								}
							}
							j.State()
						}
					}
				}
			}})
			return jobs
		}})
}
