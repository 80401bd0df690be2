package harness

import (
	"fmt"
	"math"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/google/uuid"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/curve"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"github.com/mmadfox/go-gpsgen/vshim"
)

// ---- the documented limits and defaults ----

func validModel(s string) bool  { return len(s) >= 3 && len(s) <= 64 }
func validAmplitude(a int) bool { return a >= 4 && a <= 512 }
func effMode(m types.SensorMode) types.SensorMode {
	if m == 0 {
		return curve.ModeDefault
	}
	return m
}

func effSpeed(min, max float64) (float64, float64, bool) {
	if max <= 0 { // unset
		max = min
	}
	if min < 0 || max > 1000 || min > max {
		return 0, 0, false
	}
	if max == 0 {
		return 1, 1, true
	}
	return min, max, true
}

func effBattery(lo, hi float64, ct time.Duration) (float64, float64, time.Duration, bool) {
	if lo < 0 || hi > 100 || hi < 0 {
		return 0, 0, 0, false
	}
	if ct <= 0 {
		ct = 9 * time.Hour
	}
	return math.Min(lo, hi), hi, ct, true
}

func effElevation(lo, hi float64) (float64, float64, bool) {
	if lo < 0 || hi < 0 || hi > 50000 {
		return 0, 0, false
	}
	if lo > hi {
		lo = math.Max(0, hi-1)
	}
	if hi == 0 {
		hi = 100
	}
	return lo, hi, true
}

func effOffline(lo, hi int) (int, int, bool) {
	if lo < 0 || hi < 0 || hi > 3600 {
		return 0, 0, false
	}
	if lo > hi {
		lo = max(0, hi-1)
	}
	if hi == 0 {
		hi = 10
	}
	return lo, hi, true
}

var (
	speedVals     = []float64{-1000, -1, -1e-9, 0, 1e-9, 0.5, 1, 2, 30, 999.999, 1000, 1000.001, 1001, 1e9}
	batteryVals   = []float64{-100, -1, -1e-9, 0, 1e-9, 5, 50, 99.5, 100, 100.001, 101, 1e6}
	elevationVals = []float64{-50000, -1, -1e-9, 0, 1e-9, 0.5, 1, 10, 350, 49999.5, 50000, 50000.001, 60000}
	offlineVals   = []int{-3600, -1, 0, 1, 2, 10, 60, 3599, 3600, 3601, 1 << 31, math.MinInt}
	amplitudeVals = []int{math.MinInt, -4, 0, 1, 3, 4, 5, 16, 511, 512, 513, 1 << 20}
	chargeVals    = []time.Duration{math.MinInt64, -time.Hour, -1, 0, 1, time.Second, 7 * time.Hour, math.MaxInt64}
	modeVals      = []types.SensorMode{0, types.WithSensorRandomMode, types.WithSensorStartMode, types.WithSensorEndMode, types.WithSensorStartMode | types.WithSensorEndMode}
	modelVals     = []string{"", "a", "ab", "abc", "Model-1", strings.Repeat("m", 63), strings.Repeat("m", 64), strings.Repeat("m", 65), strings.Repeat("m", 5000)}
)

// chargeKnown: a charge time of exactly zero is kept as it is (known finding).
func checkCharge(j *J, name, cs string, given, got, want time.Duration) {
	if got == want {
		return
	}
	if given == 0 && got == 0 {
		j.Fail("C21 battery/charge time 0 kept", cs, "%s: a charge time of 0 stays 0 instead of the documented default of 9 hours", cs)
		return
	}
	j.Fail(name+"/charge", cs, "%s: the charge time is %v, expected %v", cs, got, want)
}

func checkCurve(j *J, name, cs, what string, g *pb.Snapshot_Curve, lo, hi float64, amplitude int, mode types.SensorMode) {
	if g == nil || len(g.Points) != amplitude {
		j.Fail(name+"/amplitude", cs, "%s: the %s curve has %d control points, expected %d", cs, what, len(g.GetPoints()), amplitude)
		return
	}
	if g.Min != lo || g.Max != hi {
		j.Fail(name+"/range", cs, "%s: the %s curve ranges over [%v,%v], expected [%v,%v]", cs, what, g.Min, g.Max, lo, hi)
	}
	c := new(curve.Curve)
	c.FromSnapshot(g)
	if c.Min() != lo || c.Max() != hi || c.NumControlPoints() != amplitude {
		j.Fail(name+"/curve", cs, "%s: the %s curve reports %d control points over [%v,%v], expected %d over [%v,%v]", cs, what, c.NumControlPoints(), c.Min(), c.Max(), amplitude, lo, hi)
	}
	if g.Mode != int64(effMode(mode)) {
		j.Fail(name+"/mode", cs, "%s: the %s curve has mode %d, expected %d", cs, what, g.Mode, effMode(mode))
	}
}

func partsJob(name string) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		resetWorld()
		begin := func(cs string) bool {
			if !j.Want(cs) {
				return false
			}
			j.Case(cs)
			j.Eval()
			j.State()
			j.Distinct(cs)
			return true
		}
		verdict := func(what, cs string, made bool, err error, valid bool) bool {
			if (err == nil) != valid || made != valid {
				j.Fail(name+"/"+what, cs, "%s: created=%v error=%v, but inside the limits=%v", cs, made, err, valid)
				return false
			}
			return valid
		}
		for _, m := range modelVals {
			cs := fmt.Sprintf("model of %d characters", len(m))
			if begin(cs) {
				got, err := types.NewModel(m)
				if verdict("model", cs, got != (types.Model{}), err, validModel(m)) && (got.String() != m || got.IsEmpty()) {
					j.Fail(name+"/model", cs, "%s: it reads %q", cs, got)
				}
			}
		}
		for _, lo := range speedVals {
			for _, hi := range speedVals {
				for _, a := range amplitudeVals {
					cs := fmt.Sprintf("speed %v..%v amplitude %d", lo, hi, a)
					if !begin(cs) {
						continue
					}
					j.Protect(name+"/panic", cs, func() {
						s, err := types.NewSpeed(lo, hi, a)
						elo, ehi, ok := effSpeed(lo, hi)
						if !verdict("speed", cs, s != nil, err, ok && validAmplitude(a)) {
							return
						}
						if s.Min() != elo || s.Max() != ehi {
							j.Fail(name+"/speed range", cs, "%s: it ranges over [%v,%v], expected [%v,%v]", cs, s.Min(), s.Max(), elo, ehi)
						}
						checkCurve(j, name, cs, "speed", s.Snapshot().Gen, elo, ehi, a, 0)
					})
				}
			}
		}
		for _, lo := range batteryVals {
			for _, hi := range batteryVals {
				for _, ct := range chargeVals {
					cs := fmt.Sprintf("battery %v..%v charge time %v", lo, hi, ct)
					if !begin(cs) {
						continue
					}
					j.Protect(name+"/panic", cs, func() {
						b, err := types.NewBattery(lo, hi, ct)
						elo, ehi, ect, ok := effBattery(lo, hi, ct)
						if !verdict("battery", cs, b != nil, err, ok) {
							return
						}
						if b.Min() != elo || b.Max() != ehi {
							j.Fail(name+"/battery range", cs, "%s: it ranges over [%v,%v], expected [%v,%v]", cs, b.Min(), b.Max(), elo, ehi)
						}
						checkCharge(j, name, cs, ct, b.ChargeTime(), ect)
						if b.Value() != 100 {
							j.Fail(name+"/battery full", cs, "%s: it starts at %v%%", cs, b.Value())
						}
					})
				}
			}
		}
		ids := []string{"", "x", "00000000-0000-0000-0000-000000000001", "ABCDEF00-0000-4000-8000-00000000000F", "00000000-0000-0000-0000-00000000000g", "00000000-0000-0000-0000-0000000000011", "0000000-00000-0000-0000-000000000001", "id"}
		fresh := map[string]string{}
		for _, nm := range []string{"", "n", "temperature", strings.Repeat("long", 1000), "имя"} {
			for _, r := range [][2]float64{{0, 0}, {0, 1}, {-1e6, 1e6}, {5, 5}, {-3, -2}, {1, -1}} {
				for _, a := range amplitudeVals {
					for _, m := range modeVals {
						cs := fmt.Sprintf("sensor %.20q %v..%v amplitude %d mode %d", nm, r[0], r[1], a, m)
						if !begin(cs) {
							continue
						}
						valid := nm != "" && validAmplitude(a)
						look := func(s *types.Sensor) {
							if s.Name() != nm || s.Min() != r[0] || s.Max() != r[1] {
								j.Fail(name+"/sensor fields", cs, "%s: it is %.40q %v..%v", cs, s.Name(), s.Min(), s.Max())
							}
							checkCurve(j, name, cs, "sensor", s.Snapshot().Gen, r[0], r[1], a, m)
						}
						j.Protect(name+"/panic", cs, func() {
							s, err := gpsgen.NewSensor(nm, r[0], r[1], a, m)
							if verdict("sensor", cs, s != nil, err, valid) {
								look(s)
								if prev, dup := fresh[s.ID()]; dup || s.ID() == "" {
									j.Fail(name+"/fresh id", cs, "%s has the id %q, as has %s", cs, s.ID(), prev)
								}
								fresh[s.ID()] = cs
							}
						})
						for _, id := range ids {
							cs := cs + " restored as " + id
							j.Eval()
							j.Protect(name+"/panic", cs, func() {
								u, uerr := uuid.Parse(id)
								s, err := types.RestoreSensor(id, nm, r[0], r[1], a, m)
								if verdict("restored sensor", cs, s != nil, err, valid && uerr == nil) {
									look(s)
									if v, err := uuid.Parse(s.ID()); err != nil || v != u {
										j.Fail(name+"/restored id", cs, "%s: its id is %q", cs, s.ID())
									}
								}
							})
						}
					}
				}
			}
		}
		// a navigator by itself, its options in every order and number
		opts := []struct {
			n  string
			o  navigator.Option
			ok bool
		}{
			{"skip", navigator.SkipOfflineMode(), true},
			{"elevation 3..7", navigator.WithElevation(3, 7, 4, 0), true},
			{"elevation -1..7", navigator.WithElevation(-1, 7, 4, 0), false},
			{"elevation amplitude 3", navigator.WithElevation(3, 7, 3, 0), false},
			{"offline 4..9", navigator.WithOffline(4, 9), true},
			{"offline 4..3601", navigator.WithOffline(4, 3601), false},
		}
		for mask := 0; mask < 1<<len(opts); mask++ {
			for _, rev := range []bool{false, true} {
				var os []navigator.Option
				var ns []string
				elev, off, skip := "", "", false
				for i := range opts {
					k := i
					if rev {
						k = len(opts) - 1 - i
					}
					if mask>>k&1 == 0 {
						continue
					}
					os = append(os, opts[k].o)
					ns = append(ns, opts[k].n)
					switch opts[k].n[:4] {
					case "skip":
						skip = true
					case "elev":
						elev = opts[k].n
					case "offl":
						off = opts[k].n
					}
				}
				cs := fmt.Sprintf("navigator with %v", ns)
				if !begin(cs) {
					continue
				}
				j.Protect(name+"/panic", cs, func() {
					n, err := navigator.New(os...)
					if !verdict("navigator", cs, n != nil, err, (elev == "" || elev == "elevation 3..7") && (off == "" || off == "offline 4..9")) {
						return
					}
					s := n.Snapshot()
					if s.SkipOffline != skip {
						j.Fail(name+"/skip", cs, "%s: skip offline is %v", cs, s.SkipOffline)
					}
					if elev != "" && (s.Elevation.Min != 3 || s.Elevation.Max != 7 || len(s.Elevation.Gen.Points) != 4) {
						j.Fail(name+"/elevation", cs, "%s: elevation %v..%v", cs, s.Elevation.Min, s.Elevation.Max)
					}
					if !skip && off != "" && (s.OfflineMin != 4 || s.OfflineMax != 9) {
						j.Fail(name+"/offline", cs, "%s: offline %v..%v", cs, s.OfflineMin, s.OfflineMax)
					}
					if !(s.Elevation.Min >= 0 && s.Elevation.Min <= s.Elevation.Max && s.Elevation.Max <= 50000 && s.OfflineMin >= 0 && s.OfflineMax <= 3600) {
						j.Fail(name+"/defaults", cs, "%s: the defaults are outside the limits", cs)
					}
					if n.NumRoutes() != 0 || n.IsOffline() || n.Distance() != 0 {
						j.Fail(name+"/new", cs, "%s: the new navigator is not empty", cs)
					}
				})
			}
		}
		j.Sample("every combination of the boundary values of model, speed, battery, sensor and navigator")
	}}
}

// ---- trackers: options singly, in pairs (and triples) ----

type optDim struct {
	n    string
	vals []devOpt
	text []string
}

func dim[T any](n string, vals []T, set func(*gpsgen.DeviceOptions, T)) optDim {
	d := optDim{n: n}
	for _, v := range vals {
		v := v
		d.vals = append(d.vals, func(o *gpsgen.DeviceOptions) { set(o, v) })
		s := fmt.Sprintf("%v", v)
		if len(s) > 24 {
			s = fmt.Sprintf("%s...(%d)", s[:20], len(s))
		}
		d.text = append(d.text, n+"="+s)
	}
	return d
}

type colour struct {
	s     string
	valid bool
	want  string
}

var colours = []colour{{"", true, ""}, {"#ffffff", true, "#ffffff"}, {"#000000", true, "#000000"}, {"#AbCdEf", true, "#abcdef"}, {"#010203", true, "#010203"},
	{"#f", false, ""}, {"red", false, ""}, {"ffffff", false, ""}, {"#gggggg", false, ""}, {" #ffffff", false, ""}, {"#", false, ""}, {"#ff", false, ""}}

func optionDims() []optDim {
	type O = gpsgen.DeviceOptions
	var cs []string
	for _, c := range colours {
		cs = append(cs, c.s)
	}
	return []optDim{
		dim("ID", []string{"", "id", "x y", strings.Repeat("i", 40), "идентификатор"}, func(o *O, v string) { o.ID = v }),
		dim("Model", modelVals, func(o *O, v string) { o.Model = v }),
		dim("Color", cs, func(o *O, v string) { o.Color = v }),
		dim("UserID", []string{"", "user", strings.Repeat("u", 300)}, func(o *O, v string) { o.UserID = v }),
		dim("Descr", []string{"", "d", strings.Repeat("words ", 50)}, func(o *O, v string) { o.Descr = v }),
		dim("SkipOffline", []bool{false, true}, func(o *O, v bool) { o.Navigator.SkipOffline = v }),
		dim("Offline.Min", offlineVals, func(o *O, v int) { o.Navigator.Offline.Min = v }),
		dim("Offline.Max", offlineVals, func(o *O, v int) { o.Navigator.Offline.Max = v }),
		dim("Elevation.Min", elevationVals, func(o *O, v float64) { o.Navigator.Elevation.Min = v }),
		dim("Elevation.Max", elevationVals, func(o *O, v float64) { o.Navigator.Elevation.Max = v }),
		dim("Elevation.Amplitude", amplitudeVals, func(o *O, v int) { o.Navigator.Elevation.Amplitude = v }),
		dim("Elevation.Mode", modeVals, func(o *O, v types.SensorMode) { o.Navigator.Elevation.Mode = v }),
		dim("Battery.Min", batteryVals, func(o *O, v float64) { o.Battery.Min = v }),
		dim("Battery.Max", batteryVals, func(o *O, v float64) { o.Battery.Max = v }),
		dim("Battery.ChargeTime", chargeVals, func(o *O, v time.Duration) { o.Battery.ChargeTime = v }),
		dim("Speed.Min", speedVals, func(o *O, v float64) { o.Speed.Min = v }),
		dim("Speed.Max", speedVals, func(o *O, v float64) { o.Speed.Max = v }),
		dim("Speed.Amplitude", amplitudeVals, func(o *O, v int) { o.Speed.Amplitude = v }),
	}
}

// judgeDevice creates a tracker with the options and compares it with them.
func judgeDevice(j *J, name, cs string, o *gpsgen.DeviceOptions, ids map[string]string) {
	given := *o
	d, err := gpsgen.NewDevice(o)
	slo, shi, sok := effSpeed(given.Speed.Min, given.Speed.Max)
	blo, bhi, bct, bok := effBattery(given.Battery.Min, given.Battery.Max, given.Battery.ChargeTime)
	elo, ehi, eok := effElevation(given.Navigator.Elevation.Min, given.Navigator.Elevation.Max)
	olo, ohi, ook := effOffline(given.Navigator.Offline.Min, given.Navigator.Offline.Max)
	var col *colour
	for i := range colours {
		if colours[i].s == given.Color {
			col = &colours[i]
		}
	}
	valid := sok && bok && eok && ook && validAmplitude(given.Speed.Amplitude) && validAmplitude(given.Navigator.Elevation.Amplitude) &&
		(given.Model == "" || validModel(given.Model)) && (col == nil || col.valid)
	if (err == nil) != valid || (d != nil) != valid {
		j.Fail(name+"/verdict", cs, "%s: created=%v error=%v, but inside the limits=%v", cs, d != nil, err, valid)
		return
	}
	if !valid {
		return
	}
	fail := func(key, format string, a ...interface{}) {
		j.Fail(name+"/"+key, cs, "%s: %s", cs, fmt.Sprintf(format, a...))
	}
	st := d.State()
	if given.ID != "" && d.ID() != given.ID || d.ID() == "" || st.Id != d.ID() {
		fail("id", "its id is %q, published %q", d.ID(), st.Id)
	}
	if given.ID == "" && ids != nil {
		if prev, dup := ids[d.ID()]; dup {
			fail("fresh id", "it has the id %s, as has %s", d.ID(), prev)
		}
		ids[d.ID()] = cs
	}
	if given.Model != "" && d.Model() != given.Model || !validModel(d.Model()) || st.Model != d.Model() {
		fail("model", "its model is %q, published %q", d.Model(), st.Model)
	}
	if want := given.Color; want != "" {
		if col != nil {
			want = col.want
		}
		if d.Color() != want {
			fail("colour", "its colour is %q", d.Color())
		}
	}
	if len(d.Color()) != 7 || d.Color()[0] != '#' || st.Color != d.Color() {
		fail("colour", "its colour is %q, published %q", d.Color(), st.Color)
	}
	if d.UserID() != given.UserID || st.UserId != given.UserID {
		fail("user", "its user is %q, published %q", d.UserID(), st.UserId)
	}
	if d.Descr() != given.Descr || st.Description != given.Descr {
		fail("description", "its description is %q, published %q", d.Descr(), st.Description)
	}
	if d.Status() != gpsgen.Stopped || d.NumRoutes() != 0 || d.NumSensors() != 0 || d.IsOffline() || d.Duration() != 0 {
		fail("new", "it is not a fresh tracker: status %v, %d routes, %d sensors, offline %v, duration %v", d.Status(), d.NumRoutes(), d.NumSensors(), d.IsOffline(), d.Duration())
	}
	s := d.Snapshot()
	if s.Speed.Min != slo || s.Speed.Max != shi {
		fail("speed", "its speed ranges over [%v,%v], expected [%v,%v]", s.Speed.Min, s.Speed.Max, slo, shi)
	}
	checkCurve(j, name, cs, "speed", s.Speed.Gen, slo, shi, given.Speed.Amplitude, 0)
	if s.Battery.Min != blo || s.Battery.Max != bhi {
		fail("battery", "its battery ranges over [%v,%v], expected [%v,%v]", s.Battery.Min, s.Battery.Max, blo, bhi)
	}
	checkCharge(j, name, cs, given.Battery.ChargeTime, time.Duration(s.Battery.ChargeTime), bct)
	if s.Navigator.Elevation.Min != elo || s.Navigator.Elevation.Max != ehi {
		fail("elevation", "its elevation ranges over [%v,%v], expected [%v,%v]", s.Navigator.Elevation.Min, s.Navigator.Elevation.Max, elo, ehi)
	}
	checkCurve(j, name, cs, "elevation", s.Navigator.Elevation.Gen, elo, ehi, given.Navigator.Elevation.Amplitude, given.Navigator.Elevation.Mode)
	if s.Navigator.SkipOffline != given.Navigator.SkipOffline {
		fail("offline", "skip offline is %v", s.Navigator.SkipOffline)
	}
	if !given.Navigator.SkipOffline && (s.Navigator.OfflineMin != int64(olo) || s.Navigator.OfflineMax != int64(ohi)) {
		fail("offline", "its offline time ranges over [%v,%v], expected [%v,%v]", s.Navigator.OfflineMin, s.Navigator.OfflineMax, olo, ohi)
	}
}

func trackersJob(name string, ways, shards int) Job {
	return Job{Name: name, Variant: Plain, Shards: shards, Run: func(j *J) {
		resetWorld()
		dims := optionDims()
		ids := map[string]string{}
		n := 0
		var rec func(from int, left int, set []devOpt, text []string)
		rec = func(from, left int, set []devOpt, text []string) {
			if left == 0 {
				n++
				if !j.Mine(n) || j.Expired(name) {
					return
				}
				cs := "tracker with " + strings.Join(text, " ")
				if !j.Want(cs) {
					return
				}
				j.Case(cs)
				j.Eval()
				j.State()
				j.Distinct(cs)
				j.Protect(name+"/panic", cs, func() {
					o := gpsgen.NewDeviceOptions()
					for _, f := range set {
						f(o)
					}
					judgeDevice(j, name, cs, o, ids)
					j.Transition()
				})
				return
			}
			for i := from; i < len(dims); i++ {
				for k := range dims[i].vals {
					rec(i+1, left-1, append(set[:len(set):len(set)], dims[i].vals[k]), append(text[:len(text):len(text)], dims[i].text[k]))
				}
			}
		}
		for w := 0; w <= ways; w++ {
			rec(0, w, nil, nil)
		}
		j.Sample(fmt.Sprintf("every %d-tuple of %d options", ways, len(dims)))
	}}
}

type preset struct {
	n        string
	opts     *gpsgen.DeviceOptions
	make     func() *gpsgen.Device
	descr    string
	elo, ehi float64
	skip     bool
	charge   time.Duration
	slo, shi float64
	samp     int
}

func presetsJob(name string) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		h := time.Hour
		for _, p := range []preset{
			{"default options", gpsgen.NewDeviceOptions(), func() *gpsgen.Device { d, _ := gpsgen.NewDevice(nil); return d }, "", 10, 300, false, 7 * h, 1, 2, 16},
			{"tracker", gpsgen.DefaultTrackerOptions(), gpsgen.NewTracker, "Tracker", 0, 350, false, 8 * h, 1, 5, 16},
			{"kids", gpsgen.KidsTrackerOptions(), gpsgen.NewKidsTracker, "Kids tracker", 0, 50, false, 6 * h, 1, 2, 48},
			{"dog", gpsgen.DogTrackerOptions(), gpsgen.NewAnimalTracker, "Dog tracker", 1, 10, false, 2 * h, 1, 3, 64},
			{"bicycle", gpsgen.BicycleTrackerOptions(), gpsgen.NewBicycleTracker, "Bicycle tracker", 1, 125, false, 12 * h, 2, 8, 8},
			{"drone", gpsgen.DroneTrackerOptions(), gpsgen.NewDroneTracker, "Drone tracker", 1, 2500, true, 3 * h, 5, 150, 4},
		} {
			for _, c := range [][]float64{{0}, {0.5}, {topDraw}, {0.1, 0.8}} {
				cs := fmt.Sprintf("preset %s draws %v", p.n, c)
				if !j.Want(cs) {
					continue
				}
				j.Case(cs)
				j.Eval()
				j.State()
				j.Distinct(cs)
				resetWorld()
				vshim.SetCycle(c...)
				o := p.opts
				want := gpsgen.DeviceOptions{Descr: p.descr}
				want.Navigator.SkipOffline = p.skip
				want.Navigator.Offline.Min, want.Navigator.Offline.Max = 2, 60
				want.Navigator.Elevation.Min, want.Navigator.Elevation.Max, want.Navigator.Elevation.Amplitude = p.elo, p.ehi, 8
				want.Battery.Min, want.Battery.Max, want.Battery.ChargeTime = 0, 100, p.charge
				want.Speed.Min, want.Speed.Max, want.Speed.Amplitude = p.slo, p.shi, p.samp
				if *o != want {
					j.Fail(name+"/options", cs, "the options of %s are %+v, expected %+v", p.n, *o, want)
				}
				ids := map[string]string{}
				for k := 0; k < 3; k++ { // the same options again and again
					j.Protect(name+"/panic", cs, func() { judgeDevice(j, name, fmt.Sprintf("%s #%d", cs, k), o, ids) })
				}
				for k := 0; k < 3; k++ {
					d := p.make()
					if d == nil {
						j.Fail(name+"/made", cs, "%s: no tracker", p.n)
						return
					}
					if _, dup := ids[d.ID()]; dup || d.ID() == "" {
						j.Fail(name+"/fresh id", cs, "%s: the id %q repeats", p.n, d.ID())
					}
					ids[d.ID()] = cs
					s := d.Snapshot()
					if d.Descr() != p.descr || s.Speed.Min != p.slo || s.Speed.Max != p.shi || len(s.Speed.Gen.Points) != p.samp ||
						s.Navigator.Elevation.Min != p.elo || s.Navigator.Elevation.Max != p.ehi || s.Navigator.SkipOffline != p.skip ||
						time.Duration(s.Battery.ChargeTime) != p.charge || len(d.Color()) != 7 || !validModel(d.Model()) {
						j.Fail(name+"/preset", cs, "the %s tracker does not match its options: %q %v..%v m/s, elevation %v..%v, skip %v, %v", p.n, d.Descr(), s.Speed.Min, s.Speed.Max, s.Navigator.Elevation.Min, s.Navigator.Elevation.Max, s.Navigator.SkipOffline, time.Duration(s.Battery.ChargeTime))
					}
				}
				j.Transition()
			}
		}
		if o := gpsgen.NewOptions(); *o != (gpsgen.Options{Interval: 3 * time.Second, PacketSize: 8192, NumWorkers: 4}) {
			j.Fail(name+"/generator", "NewOptions", "the default generator options are %+v", *o)
		}
		j.Sample("six presets")
	}}
}

// generatorsJob observes the interval and packet size a generator works with.
func generatorsJob(name string) Job {
	return Job{Name: name, Variant: Plain, Shards: 8, Run: func(j *J) {
		ns := 0
		type cfg struct {
			o        *gpsgen.Options
			interval time.Duration
			packet   int
		}
		cfgs := []cfg{{nil, 3 * time.Second, 8192}, {gpsgen.NewOptions(), 3 * time.Second, 8192}}
		for _, p := range []int{-1, 0, 1, 1023, 1024, 1025, 1500} {
			for _, iv := range []time.Duration{-time.Second, 0, 1, 100 * time.Microsecond, 999 * time.Microsecond, time.Millisecond, 700 * time.Millisecond, time.Second, time.Hour} {
				for _, w := range []int{-1, 0, 1, 3, 16} {
					c := cfg{&gpsgen.Options{Interval: iv, PacketSize: p, NumWorkers: w}, iv, max(p, 1024)}
					if iv <= 0 {
						c.interval = time.Second
					}
					cfgs = append(cfgs, c)
				}
			}
		}
		var pool []*gpsgen.Device
		device := func(i int) *gpsgen.Device {
			for len(pool) <= i {
				d := newDev(fmt.Sprintf("t%d", len(pool)), skipOff, static(1))
				must(d.AddRoute(countRoute))
				pool = append(pool, d)
			}
			return pool[i]
		}
		for _, c := range cfgs {
			ns++
			if !j.Mine(ns) {
				continue
			}
			cs := fmt.Sprintf("generator options %+v", c.o)
			if !j.Want(cs) {
				continue
			}
			if j.Expired(name) {
				return
			}
			j.Case(cs)
			j.Eval()
			j.State()
			j.Distinct(cs)
			synctest.Test(j.T, func(t *testing.T) {
				g := gpsgen.New(c.o)
				if g == nil {
					j.Fail(name+"/nil", cs, "%s: no generator", cs)
					return
				}
				r := &rec{}
				r.hook(g)
				start := time.Now()
				var at []time.Duration
				g.OnNext(func() {
					at = append(at, time.Since(start))
				})
				n := c.packet + 5
				for i := 0; i < n; i++ {
					must(g.Attach(device(i)))
				}
				go g.Run()
				time.Sleep(3*c.interval + c.interval/2)
				synctest.Wait()
				g.Close()
				synctest.Wait()
				for i := 0; i < n; i++ {
					must(g.Detach(device(i).ID()))
				}
				if c.interval > 0 {
					if len(at) != 3 || at[0] != c.interval || at[1] != 2*c.interval || at[2] != 3*c.interval {
						j.Fail(name+"/interval", cs, "%s: steps at %v, expected every %v", cs, at, c.interval)
					}
					most, total := 0, 0
					for _, b := range r.packets {
						p, err := gpsgen.PacketFromBytes(b)
						if err != nil {
							j.Fail(name+"/packet", cs, "%s: %v", cs, err)
							return
						}
						most = max(most, len(p.Devices))
						total += len(p.Devices)
					}
					if total != 3*n || most > c.packet || c.o != nil && c.o.NumWorkers == 1 && most != c.packet {
						j.Fail(name+"/packet size", cs, "%s: %d records in packets of up to %d, expected %d in packets of up to %d", cs, total, most, 3*n, c.packet)
					}
				}
				j.Transition()
			})
		}
		j.Sample(fmt.Sprintf("%d generator configurations", len(cfgs)))
	}}
}

func init() {
	register(&Check{ID: "C21", Level: "exploration",
		Rule:        "a case is one combination of option values: the whole grid of boundary values for speed, battery, sensor, model, navigator and generator; every pair (thorough: triple) of values of two different tracker options, the others at their defaults",
		Assumptions: []string{"finite option values", "a speed maximum of zero or less counts as unset"},
		Jobs: func(tier string) []Job {
			jobs := []Job{partsJob("C21 parts"), presetsJob("C21 presets"), generatorsJob("C21 generators"), trackersJob("C21 trackers", 3, 8)}
			if tier == "thorough" {
				jobs[3] = trackersJob("C21 trackers", 4, 16)
			}
			return jobs
		}})
}
