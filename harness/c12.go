package harness

import (
	"fmt"
	"math"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/curve"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/types"
	"github.com/mmadfox/go-gpsgen/vshim"
)

// within: v in [min,max] up to rounding.
func within(v, min, max float64) bool {
	tol := 1e-9 * math.Max(math.Abs(min), math.Abs(max))
	if min == max {
		tol = 1e-9 * math.Max(1, math.Abs(min))
	}
	return v >= min-tol && v <= max+tol
}

// drawVectors lists draw sequences: every vector over three values for few
// control points, structured ones (constants, steps, spikes, alternations) for many.
func drawVectors(n, full int) [][]float64 {
	const top = 0.9999999999999999
	vals := []float64{0, 0.5, top}
	var out [][]float64
	if n <= full {
		v := make([]float64, n)
		var rec func(i int)
		rec = func(i int) {
			if i == n {
				out = append(out, append([]float64(nil), v...))
				return
			}
			for _, x := range vals {
				v[i] = x
				rec(i + 1)
			}
		}
		rec(0)
		return out
	}
	mk := func(f func(i int) float64) {
		v := make([]float64, n)
		for i := range v {
			v[i] = f(i)
		}
		out = append(out, v)
	}
	for _, x := range vals {
		x := x
		mk(func(int) float64 { return x })
	}
	mk(func(i int) float64 { return float64(i%2) * top })
	mk(func(i int) float64 { return float64(1-i%2) * top })
	stride := 1
	if n > 32 {
		stride = n / 16
	}
	for k := 0; k < n; k += stride {
		k := k
		mk(func(i int) float64 { // spike
			if i == k {
				return top
			}
			return 0
		})
		mk(func(i int) float64 { // dip
			if i == k {
				return 0
			}
			return top
		})
		mk(func(i int) float64 { // step
			if i < k {
				return 0
			}
			return top
		})
	}
	return out
}

var tickGrid = []float64{0, 1e-300, 1e-12, 1e-6, 0.001, 0.01, 0.05, 0.1, 0.2, 0.25, 1.0 / 3, 0.4, 0.499999, 0.5, 0.6, 2.0 / 3, 0.75, 0.9, 0.99, 0.999, 1 - 1e-6, 1 - 1e-12, math.Nextafter(1, 0), 1}

type generated interface {
	Next(t float64)
	Shuffle()
}

func curvesJob(name string, amps []int, full int) Job {
	type rng struct{ min, max float64 }
	sensorRanges := []rng{{0, 1}, {-40, 40}, {5, 5}, {0, 0}, {1e6, 1e6 + 1}, {-1e-3, 1e-3}, {-3, -2}, {0, 50000}}
	speedRanges := []rng{{0, 1000}, {1, 5}, {7, 7}, {0, 0.001}, {999, 1000}, {1000, 1000}, {2, 0}, {0, 0}}
	modes := []types.SensorMode{types.WithSensorRandomMode, types.WithSensorStartMode, types.WithSensorEndMode, types.WithSensorStartMode | types.WithSensorEndMode,
		types.WithSensorRandomMode | types.WithSensorEndMode, 0, 1, 0xffff}
	return Job{Name: name, Variant: Plain, Shards: 8, Run: func(j *J) {
		n := 0
		for _, amp := range amps {
			for vi, vec := range drawVectors(amp, full) {
				n++
				if !j.Mine(n) {
					continue
				}
				if j.Expired(name) {
					return
				}
				// what a later shuffle draws: another vector of the list
				vecs := [][]float64{vec, complement(vec)}
				check := func(cs string, r rng, start, end bool, g generated, val func() float64, again func() (generated, func() float64)) {
					j.Case(cs)
					j.Eval()
					j.Distinct(cs)
					one := func(phase string, g generated, val func() float64) {
						for _, t := range tickGrid {
							g.Next(t)
							v := val()
							if !within(v, r.min, r.max) || math.IsNaN(v) {
								j.Fail(name+"/range", cs, "%s, %s: value %v at %v leaves %v..%v", cs, phase, v, t, r.min, r.max)
								return
							}
							if (start && t == 0 || end && t == 1) && !within(v, r.min, r.min) {
								j.Fail(name+"/mode", cs, "%s, %s: value %v at %v, expected the minimum %v", cs, phase, v, t, r.min)
							}
						}
						j.Transition()
					}
					one("fresh", g, val)
					vshim.SetCycle(vecs[1]...)
					g.Shuffle()
					one("shuffled", g, val)
					rg, rval := again()
					for _, t := range tickGrid {
						g.Next(t)
						rg.Next(t)
						if val() != rval() {
							j.Fail(name+"/restored", cs, "%s: at %v the restored value is %v, the original %v", cs, t, rval(), val())
							break
						}
					}
					one("restored", rg, rval)
					vshim.SetCycle(vecs[0]...)
					rg.Shuffle()
					one("restored and shuffled", rg, rval)
				}
				for _, r := range sensorRanges {
					for _, m := range modes {
						r, m := r, m
						cs := fmt.Sprintf("sensor amplitude %d draws #%d mode %d range %v..%v", amp, vi, m, r.min, r.max)
						if !j.Want(cs) {
							continue
						}
						j.Protect(name+"/panic", cs, func() {
							vshim.SetCycle(vec...)
							s, err := types.NewSensor("s", r.min, r.max, amp, m)
							must(err)
							known := m != 0
							check(cs, r, known && m&curve.ModeMinStart != 0, known && m&curve.ModeMinEnd != 0, s, func() float64 { return s.ValueY() }, func() (generated, func() float64) {
								b, err := gpsgen.EncodeSensors([]*gpsgen.Sensor{s})
								must(err)
								d, err := gpsgen.DecodeSensors(b)
								must(err)
								return d[0], func() float64 { return d[0].ValueY() }
							})
						})
					}
				}
				for _, r := range speedRanges {
					cs := fmt.Sprintf("speed amplitude %d draws #%d range %v..%v", amp, vi, r.min, r.max)
					if !j.Want(cs) {
						continue
					}
					j.Protect(name+"/panic", cs, func() {
						vshim.SetCycle(vec...)
						s, err := types.NewSpeed(r.min, r.max, amp)
						must(err)
						r := rng{s.Min(), s.Max()}
						val := func(s *types.Speed) func() float64 {
							return func() float64 {
								if r.min == r.max && s.Value() != r.min {
									return math.NaN() // not constant
								}
								return s.Value()
							}
						}
						if r.min == r.max && s.Value() != r.min {
							j.Fail(name+"/constant", cs, "%s: value %v before the first step", cs, s.Value())
						}
						check(cs, r, false, false, s, val(s), func() (generated, func() float64) {
							d := new(types.Speed)
							d.FromSnapshot(s.Snapshot())
							return d, val(d)
						})
					})
				}
				if vi == 0 {
					j.Sample(fmt.Sprintf("amplitude %d: %d draw vectors", amp, len(drawVectors(amp, full))))
				}
				j.State()
			}
		}
	}}
}

func complement(v []float64) []float64 {
	out := make([]float64, len(v))
	for i := range v {
		out[i] = math.Max(0, 0.9999999999999999-v[len(v)-1-i])
	}
	return out
}

// elevation of a navigator for every draw vector and mode
func elevationJob(name string, amps []int, full int) Job {
	return Job{Name: name, Variant: Plain, Shards: 4, Run: func(j *J) {
		n := 0
		for _, amp := range amps {
			for vi, vec := range drawVectors(amp, full) {
				n++
				if !j.Mine(n) {
					continue
				}
				for _, r := range [][2]float64{{0, 100}, {10, 20}, {50000, 50000}, {0, 50000}, {5, 5}, {0, 0}} {
					for _, m := range []types.SensorMode{types.WithSensorRandomMode, types.WithSensorStartMode, types.WithSensorEndMode, 0} {
						cs := fmt.Sprintf("elevation amplitude %d draws #%d mode %d range %v", amp, vi, m, r)
						if !j.Want(cs) {
							continue
						}
						j.Case(cs)
						j.Eval()
						j.Distinct(cs)
						j.Protect(name+"/panic", cs, func() {
							vshim.SetCycle(vec...)
							nav, err := navigator.New(navigator.WithElevation(r[0], r[1], amp, m))
							must(err)
							lo, hi := r[0], r[1]
							if lo == 0 && hi == 0 {
								hi = 100
							}
							one := func(phase string, nav *navigator.Navigator) {
								for _, t := range tickGrid {
									nav.NextElevation(t)
									v := nav.Elevation()
									if !within(v, lo, hi) || math.IsNaN(v) {
										j.Fail(name+"/range", cs, "%s, %s: elevation %v at %v", cs, phase, v, t)
										return
									}
									if (m == types.WithSensorStartMode && t == 0 || m == types.WithSensorEndMode && t == 1) && !within(v, lo, lo) {
										j.Fail(name+"/mode", cs, "%s, %s: elevation %v at %v", cs, phase, v, t)
									}
								}
								j.Transition()
							}
							one("fresh", nav)
							vshim.SetCycle(complement(vec)...)
							nav.ShuffleElevation()
							one("shuffled", nav)
							c := new(navigator.Navigator)
							must(c.FromSnapshot(nav.Snapshot()))
							one("restored", c)
							c.ShuffleElevation()
							one("restored and shuffled", c)
						})
					}
				}
				j.State()
			}
		}
	}}
}

// ---- battery: every history of steps against a clock ----

func batteryJob(name string, depth int) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		steps := []float64{0, 0.001, 1, 1.5, 10, 59, 3600, 1e9}
		for _, min := range []float64{0, 1, 20, 50, 99.5, 100} {
			for _, max := range []float64{100, 60} {
				for _, ct := range []time.Duration{time.Second, 10 * time.Second, 90 * time.Second, 7 * time.Hour, -1} {
					var rec func(h []int)
					rec = func(h []int) {
						cs := fmt.Sprintf("battery min %v max %v charge time %v history %v", min, max, ct, h)
						if j.Want(cs) {
							j.Case(cs)
							j.Eval()
							j.State()
							b, err := types.NewBattery(min, max, ct)
							must(err)
							lo := math.Min(min, max)
							full := ct
							if ct < 0 {
								full = 9 * time.Hour
							}
							at, ok := 0.0, true
							judge := func(b *types.Battery, what string) {
								want := math.Max(lo, 100-at/full.Seconds()*100)
								v := b.Value()
								if ok && (math.Abs(v-want) > 1e-7 || v < lo || v > 100) {
									ok = false
									j.Fail(name+"/value", cs, "%s, %s: %v%% after %v s, expected %v%%", cs, what, v, at, want)
								}
								if ok && b.IsLow() != (v == lo) {
									ok = false
									j.Fail(name+"/low", cs, "%s, %s: IsLow is %v at %v%%", cs, what, b.IsLow(), v)
								}
							}
							judge(b, "new")
							for _, k := range h {
								if k < 0 {
									b.Reset()
									at = 0
								} else {
									b.Next(steps[k])
									at += steps[k]
								}
								judge(b, "step")
							}
							r := new(types.Battery)
							r.FromSnapshot(b.Snapshot())
							judge(r, "restored")
							r.Next(2.5)
							at += 2.5
							judge(r, "restored and stepped")
							r.Reset()
							at = 0
							judge(r, "restored and reset")
							j.Transition()
						}
						if len(h) == depth {
							return
						}
						for k := -1; k < len(steps); k++ {
							rec(append(append([]int(nil), h...), k))
						}
					}
					if j.Expired(name) {
						return
					}
					rec(nil)
				}
			}
		}
		j.Sample("battery: every history of steps and resets")
	}}
}

// ---- trackers ----

type rangeCfg struct {
	name               string
	smin, smax         float64
	emin, emax         float64
	mode               types.SensorMode
	amp                int
	batMin             float64
	charge             time.Duration
	skip               bool
	sensorMin, sensMax float64
}

func judgeRanges(cfg rangeCfg) func(c *Tx) {
	return func(c *Tx) {
		o := c.Post
		st := o.St
		for _, x := range []struct {
			n           string
			v, min, max float64
		}{
			{"speed", st.Speed, cfg.smin, cfg.smax},
			{"elevation", st.Location.GetElevation(), cfg.emin, cfg.emax},
			{"battery", st.Battery.GetCharge(), cfg.batMin, 100},
		} {
			stepped := c.Op.Kind == "step" && c.Res == true
			if x.n == "speed" && x.v == 0 && (c.Op.Kind != "step" || c.Pre.N == 0) {
				continue // nothing published yet
			}
			if x.n == "elevation" && x.v == 0 && !stepped {
				continue
			}
			if x.n == "battery" && !stepped && x.v == 0 {
				continue // not published before the first update
			}
			if !within(x.v, x.min, x.max) || math.IsNaN(x.v) {
				c.Fail(x.n, "published %s %v leaves %v..%v", x.n, x.v, x.min, x.max)
			}
		}
		if cfg.smin == cfg.smax && c.Op.Kind == "step" && c.Res == true && st.Speed != cfg.smin {
			c.Fail("constant", "speed %v, expected the constant %v", st.Speed, cfg.smin)
		}
		for i, s := range st.Sensors {
			d := c.W.D.SensorAt(i)
			if d == nil {
				continue
			}
			if c.Op.Kind == "step" && c.Res == true || s.ValY != 0 {
				if !within(s.ValY, d.Min(), d.Max()) || math.IsNaN(s.ValY) || !within(d.ValueY(), d.Min(), d.Max()) {
					c.Fail("sensor", "sensor %d value %v (published %v) leaves %v..%v", i, d.ValueY(), s.ValY, d.Min(), d.Max())
				}
			}
		}
		// the battery discharges with the time of the steps
		if c.Op.Kind == "step" && o.N > 0 {
			low, close := lowAfter(c.Pre, c.Op.F)
			b := c.Pre.Snap.Battery
			if !close {
				ct := time.Duration(b.ChargeTime).Seconds()
				want := 100.0
				if !low {
					want = 100 - (b.Val+c.Op.F)/ct*100
				}
				q := o.Snap.Battery
				got := 100.0
				if q.Val != 0 {
					got = math.Max(q.Min, 100-q.Val/ct*100)
				}
				if math.Abs(got-want) > 1e-7 {
					c.Fail("discharge", "battery at %v%% after the step, expected %v%%", got, want)
				}
				if c.Res == true && math.Abs(st.Battery.Charge-want) > 1e-7 {
					c.Fail("discharge", "published battery %v%% after the step, expected %v%%", st.Battery.Charge, want)
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C12", Level: "exploration",
		Rule:        "a case is one (amplitude, draw vector, mode, range) evaluated on a grid of 24 positions when fresh, shuffled, restored, restored and shuffled; or one battery history; or one state of a tracker with curves",
		Assumptions: []string{"finite ranges with minimum not above maximum", "step times are not negative", "comparison up to 1e-9 of the range's magnitude (floating-point rounding)"},
		Jobs: func(tier string) []Job {
			jobs := []Job{
				curvesJob("C12 curves, all draws", []int{4, 5, 6, 7, 8}[:pick(tier, 4, 5)], 8),
				curvesJob("C12 curves, structured draws", []int{7, 8, 9, 16, 33, 64, 128, 512}[:pick(tier, 8, 8)], pick(tier, 0, 7)),
				elevationJob("C12 elevation", []int{4, 5, 8, 64, 512}, pick(tier, 5, 6)),
				batteryJob("C12 battery", pick(tier, 3, 5)),
			}
			cfgs := []rangeCfg{
				{name: "walk", smin: 1, smax: 5, emin: 10, emax: 300, mode: types.WithSensorRandomMode, amp: 4, charge: 7 * time.Hour},
				{name: "start mode", smin: 2, smax: 9, emin: 100, emax: 300, mode: types.WithSensorStartMode, amp: 5, batMin: 20, charge: 40 * time.Second, skip: true},
				{name: "end mode", smin: 4, smax: 4, emin: 7, emax: 8, mode: types.WithSensorEndMode, amp: 16, batMin: 50, charge: 15 * time.Second},
				{name: "fast", smin: 0.5, smax: 1000, emin: 0, emax: 50000, mode: types.WithSensorRandomMode, amp: 7, charge: 90 * time.Second, skip: true},
				{name: "standing", smin: 0, smax: 0.01, emin: 5, emax: 5, mode: types.WithSensorRandomMode, amp: 4, charge: 60 * time.Second, skip: true},
			}
			cycles := map[string][]float64{"low": {0}, "high": {0.9999999999999999}, "alternating": {0, 0.9999999999999999}, "mixed": {0.1, 0.9, 0.5, 0.99, 0.01, 0.7, 0.3}}
			for _, cfg := range cfgs {
				for cn, cy := range cycles {
					for _, fn := range []string{"two", "squares", "tiny"} {
						cfg := cfg
						opts := []devOpt{func(o *gpsgen.DeviceOptions) {
							o.Speed.Min, o.Speed.Max, o.Speed.Amplitude = cfg.smin, cfg.smax, cfg.amp
							o.Navigator.Elevation.Min, o.Navigator.Elevation.Max, o.Navigator.Elevation.Amplitude, o.Navigator.Elevation.Mode = cfg.emin, cfg.emax, cfg.amp, cfg.mode
							o.Navigator.SkipOffline = cfg.skip
						}, offline(1, 3), batteryOpt(cfg.batMin, cfg.charge)}
						ops := []SeqOp{opStep(0), opStep(0.5), opStep(3), opStep(25), opStep(1000), opOffline(), opMoveTrack(0, 1), opResetNav(), opRestore(), opUpdate(), opAddRoute(0), opRemoveRoute(0), opAddSensor(2)}
						s := &Seq{Name: fmt.Sprintf("C12 tracker %s %s %s", cfg.name, fn, cn), Draw: cy, New: withSensors(devWorld(fixtureByName(fn), true, opts...), 2), Ops: ops,
							Depth: pick(tier, 4, 5), Check: judgeRanges(cfg)}
						jobs = append(jobs, Job{Name: s.Name, Variant: Plain, Run: func(j *J) { j.BFS(s) }})
					}
				}
			}
			return jobs
		}})
}
