package harness

import (
	"fmt"
	"math"
	"strings"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/random"
	"github.com/mmadfox/go-gpsgen/types"
	"github.com/mmadfox/go-gpsgen/vshim"
)

const topDraw = 0.9999999999999999

// draws enumerates the decisions of the random source: every sequence of the
// values for as many draws as the code makes (bounded), depth first.
func allDraws(vals []float64, maxDraws int, f func(drawn func() []float64)) (runs int) {
	prefix := []int{}
	for {
		n := 0
		var got []float64
		vshim.Draw = func() float64 {
			k := 0
			if n < len(prefix) {
				k = prefix[n]
			} else if n < maxDraws {
				prefix = append(prefix, 0)
			}
			n++
			got = append(got, vals[k])
			return vals[k]
		}
		f(func() []float64 { return got })
		runs++
		if n < len(prefix) {
			prefix = prefix[:n]
		}
		i := len(prefix) - 1
		for i >= 0 && prefix[i] == len(vals)-1 {
			i--
		}
		if i < 0 {
			vshim.SetConst(0.5)
			return
		}
		prefix = append([]int(nil), prefix[:i+1]...)
		prefix[i]++
	}
}

func caseVariants(code string) []string {
	l, u := strings.ToLower(code), strings.ToUpper(code)
	return []string{u, l, u[:1] + l[1:], l[:1] + u[1:]}
}

// boxesByCountry asks for every two-byte code there is.
func countriesJob(name string) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		resetWorld()
		vals := []float64{0, 1e-16, 0.25, 0.5, 0.75, 1 - 1e-9, topDraw}
		listed := map[string]string{}
		n := 0
		random.EachCountry(func(code, nm string) {
			n++
			if _, dup := listed[code]; dup {
				j.Fail(name+"/each", code, "EachCountry gives %s twice", code)
			}
			listed[code] = nm
		})
		if n < 150 {
			j.Fail(name+"/each", "all", "EachCountry gives %d countries", n)
		}
		try := func(code string, known bool, nm string) {
			cs := fmt.Sprintf("country %q", code)
			if !j.Want(cs) {
				return
			}
			j.Case(cs)
			j.Eval()
			j.State()
			j.Protect(name+"/panic", cs, func() {
				got, err := random.CountryName(code)
				if known && (err != nil || got != nm || got == "") || !known && (err == nil || got != "") {
					j.Fail(name+"/name", cs, "the name of %q is %q, %v; EachCountry lists %v %q", code, got, err, known, nm)
				}
				bb, berr := random.BoundingBox(code)
				if !known && berr == nil {
					j.Fail(name+"/unknown", cs, "the unknown code %q has the box %v", code, bb)
				}
				if berr != nil {
					if bb != (geo.BBox{}) {
						j.Fail(name+"/unknown", cs, "an error and the box %v", bb)
					}
					if p, err := random.LatLonByCountry(code); err == nil || p != (geo.LatLonPoint{}) {
						j.Fail(name+"/unknown", cs, "%q has no box but the point %v, %v", code, p, err)
					}
					return
				}
				if !(bb.MinLon < bb.MaxLon && bb.MinLat < bb.MaxLat && bb.MinLon >= -180 && bb.MaxLon <= 180 && bb.MinLat >= -90 && bb.MaxLat <= 90) {
					j.Fail(name+"/box", cs, "the box of %q is %v", code, bb)
				}
				if !bb.In(bb.Center()) {
					j.Fail(name+"/box", cs, "the centre of %v is outside it", bb)
				}
				for _, v := range caseVariants(code) {
					if b2, err := random.BoundingBox(v); err != nil || b2 != bb {
						j.Fail(name+"/case", cs, "the box of %q is %v, of %q %v, %v", code, bb, v, b2, err)
					}
				}
				spread := map[string]bool{}
				r := allDraws(vals, 2, func(drawn func() []float64) {
					p, err := random.LatLonByCountry(code)
					j.Transition()
					const e = 1e-9
					if err != nil || !(p.Lat >= bb.MinLat-e && p.Lat <= bb.MaxLat+e && p.Lon >= bb.MinLon-e && p.Lon <= bb.MaxLon+e) {
						j.Fail(name+"/point", cs, "with the draws %v the point of %q is %v, %v, outside %v", drawn(), code, p, err, bb)
					}
					spread[fmt.Sprintf("%.3f %.3f", p.Lat, p.Lon)] = true
				})
				if len(spread) < 20 || r < 40 {
					j.Fail(name+"/spread", cs, "%d draws give only %d different points in %q", r, len(spread), code)
				}
			})
		}
		for a := 0; a < 256; a++ {
			for b := 0; b < 256; b++ {
				code := string([]byte{byte(a), byte(b)})
				nm, known := "", false
				for _, v := range []string{code} {
					nm, known = listed[strings.ToUpper(v)]
				}
				try(code, known, nm)
			}
		}
		var others []string
		for c := range listed {
			if len(c) != 2 {
				j.Fail(name+"/each", c, "EachCountry lists the code %q", c)
				continue
			}
			others = append(others, c+" ", " "+c, c[:1], c+c, c+"A")
		}
		for _, c := range append(others, "", "USA", "\xff\xfe\xfd") {
			if len(c) != 2 {
				try(c, false, "")
			}
		}
		j.Distinct("all two-byte codes")
		j.Sample(fmt.Sprintf("all 65536 two-byte codes, %d listed", len(listed)))
	}}
}

func worldPointsJob(name string) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		var vals []float64
		for i := 0; i < 64; i++ {
			vals = append(vals, float64(i)/64, math.Nextafter(float64(i+1)/64, 0))
		}
		quadrants := map[string]bool{}
		allDraws(vals, 2, func(drawn func() []float64) {
			p := random.LatLon()
			j.Eval()
			j.State()
			if !validCoord(p) || math.IsNaN(p.Lat) || math.IsNaN(p.Lon) {
				j.Fail(name+"/valid", fmt.Sprint(drawn()), "with the draws %v a world point is %v", drawn(), p)
			}
			quadrants[fmt.Sprintf("%d %d", int(math.Floor(p.Lat/45)), int(math.Floor(p.Lon/45)))] = true
			j.Distinct(fmt.Sprint(p))
		})
		if len(quadrants) < 32 {
			j.Fail(name+"/anywhere", "all", "world points fall into %d of 32 parts of the world", len(quadrants))
		}
		j.Sample("128x128 draws")
	}}
}

func stringsJob(name string) Job {
	const alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		var vals []float64
		for i := 0; i < 62; i++ {
			vals = append(vals, (float64(i)+0.5)/62)
		}
		vals = append(vals, 0, topDraw)
		check := func(cs string, length int) string {
			j.Eval()
			s := random.String(length)
			if len(s) != max(length, 0) {
				j.Fail(name+"/length", cs, "String(%d) has %d characters", length, len(s))
			}
			if i := strings.IndexFunc(s, func(r rune) bool { return !strings.ContainsRune(alphabet, r) }); i >= 0 {
				j.Fail(name+"/alphabet", cs, "String(%d) is %q", length, s)
			}
			j.Distinct(s)
			return s
		}
		for length := -2; length <= 70; length++ {
			for _, c := range [][]float64{{0}, {topDraw}, {0.5}, {0, topDraw}, vals} {
				vshim.SetCycle(c...)
				check(fmt.Sprintf("string %d %v", length, c), length)
				j.State()
			}
		}
		seen := map[string]bool{}
		allDraws(vals, 2, func(drawn func() []float64) {
			s := check(fmt.Sprint("string 2 ", drawn()), 2)
			for _, r := range s {
				seen[string(r)] = true
			}
			j.Transition()
		})
		if len(seen) != len(alphabet) {
			j.Fail(name+"/alphabet", "all", "only %d characters occur", len(seen))
		}
		for _, c := range [][]float64{{0}, {topDraw}, {0.3, 0.8}} {
			vshim.SetCycle(c...)
			m := types.RandomModel()
			if _, err := types.NewModel(m.String()); err != nil || m.IsEmpty() {
				j.Fail(name+"/model", fmt.Sprint(c), "the random model %q is not a valid model: %v", m, err)
			}
		}
		j.Sample("every pair of 64 draws")
	}}
}

// expOf is what the exponential draw is for a uniform one.
func expOf(u float64) float64 { return -math.Log(1 - math.Min(u, topDraw)) }

// spreadLimit bounds how far (in degrees) a point of a polygon may lie out,
// given the largest draw.
func spreadLimit(zoom float64, draws []float64) float64 {
	e := 1.0
	for _, u := range draws {
		e = math.Max(e, expOf(u))
	}
	return zoom * (1e-4 + 4e-4*e) * (1 + 1e-9)
}

func judgePolygon(j *J, name, cs string, points int, zoom float64, drawn []float64, got [][2]float64) {
	n := points
	if n <= 0 {
		n = 16
	}
	if len(got) != n+1 {
		j.Fail(name+"/count", cs, "%s has %d points", cs, len(got))
		return
	}
	if got[0] != got[n] {
		j.Fail(name+"/closed", cs, "%s starts at %v and ends at %v", cs, got[0], got[n])
	}
	z := math.Max(0, math.Min(1000, zoom))
	if z == 0 {
		z = 1
	}
	far := 0.0
	for _, p := range got {
		r := math.Hypot(p[0], p[1])
		if math.IsNaN(r) || math.IsInf(r, 0) || r > spreadLimit(z, drawn) {
			j.Fail(name+"/near", cs, "%s has the point %v (draws up to %v)", cs, p, drawn)
			return
		}
		far = math.Max(far, r)
	}
	if far == 0 {
		j.Fail(name+"/point", cs, "%s is a single point", cs)
	}
}

func polygonsJob(name string, full int) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		vals := []float64{0, 0.3, 0.8, topDraw}
		for points := 1; points <= full; points++ {
			for _, zoom := range []float64{0, 10, 1000} {
				allDraws(vals, 2*points, func(drawn func() []float64) {
					got := random.Polygon(points, zoom)
					cs := fmt.Sprintf("polygon of %d points, zoom %v, draws %v", points, zoom, drawn())
					j.Case(cs)
					j.Eval()
					j.State()
					judgePolygon(j, name, cs, points, zoom, drawn(), got)
					j.Distinct(cs)
				})
			}
		}
		for _, points := range []int{-3, -1, 0, 1, 2, 3, 4, 15, 16, 17, 32, 100} {
			for _, zoom := range []float64{-1, 0, 0.5, 1, 10, 600, 999.5, 1000, 1001, 1e9} {
				for _, c := range cyclesOfDraws() {
					cs := fmt.Sprintf("polygon of %d points, zoom %v, draws %v...", points, zoom, c)
					if !j.Want(cs) {
						continue
					}
					j.Case(cs)
					j.Eval()
					j.State()
					j.Protect(name+"/panic", cs, func() {
						vshim.SetCycle(c...)
						judgePolygon(j, name, cs, points, zoom, c, random.Polygon(points, zoom))
					})
					j.Transition()
				}
			}
		}
		j.Sample("every draw of polygons of few points")
	}}
}

func cyclesOfDraws() [][]float64 {
	return [][]float64{{0}, {topDraw}, {0.5}, {0, topDraw}, {topDraw, 0}, {0, 0.9}, {0.9, 0}, {0.1, 0.9, 0.5}, {0.01, 0.3, 0.6, 0.99, 0.45}, {1e-9}, {0, 0, 0, 0.5}}
}

func judgeRandomRoute(j *J, name, cs string, r *navigator.Route, lat, lon float64, tracks, level int, drawn []float64) {
	if r == nil {
		j.Fail(name+"/nil", cs, "%s: no route", cs)
		return
	}
	if r.NumTracks() != tracks {
		j.Fail(name+"/count", cs, "%s: %d tracks", cs, r.NumTracks())
		return
	}
	if r.Name().IsEmpty() || r.ID() == "" || r.Color() == "" {
		j.Fail(name+"/named", cs, "%s: route %q named %q coloured %q", cs, r.ID(), r.Name(), r.Color())
	}
	lv := float64(min(max(level, gpsgen.RouteLevelS), gpsgen.RouteLevelXXL))
	limit := spreadLimit(lv, drawn)
	ids := map[string]bool{}
	for i := 0; i < tracks; i++ {
		t := r.TrackAt(i)
		if t == nil || ids[t.ID()] || t.ID() == "" || t.Name().IsEmpty() || t.Color() == "" {
			j.Fail(name+"/named", cs, "%s: track %d is %v", cs, i, t)
			return
		}
		ids[t.ID()] = true
		if !t.IsClosed() || t.NumSegments() < 1 || !(t.Distance() > 0) || math.IsInf(t.Distance(), 0) {
			j.Fail(name+"/closed", cs, "%s: track %d closed=%v, %d segments, %v m", cs, i, t.IsClosed(), t.NumSegments(), t.Distance())
			return
		}
		if t.SegmentAt(0).PointA() != t.SegmentAt(t.NumSegments()-1).PointB() {
			j.Fail(name+"/closed", cs, "%s: track %d ends elsewhere than it starts", cs, i)
		}
		for k := 0; k < t.NumSegments(); k++ {
			p := t.SegmentAt(k).PointA()
			if !(offBy(p, lat, lon) <= limit) {
				j.Fail(name+"/near", cs, "%s: track %d passes %v, more than %v degrees out", cs, i, p, limit)
				return
			}
		}
	}
	if tracks == 0 {
		return
	}
	// it can be walked, all of it
	d := newDev("dev", skipOff, static(10))
	if err := d.AddRoute(r); err != nil {
		j.Fail(name+"/steppable", cs, "%s: %v", cs, err)
		return
	}
	longest := 0.0
	for i := 0; i < tracks; i++ {
		for k := 0; k < r.TrackAt(i).NumSegments(); k++ {
			longest = math.Max(longest, r.TrackAt(i).SegmentAt(k).Distance())
		}
	}
	step := longest / 10 / 3 // steps longer than a segment skip it
	seen, moved := map[int]bool{}, false
	for k := 0; k < 40+100*tracks; k++ {
		if d.Next(step) {
			moved = true
			seen[d.TrackIndex()] = true
		}
		p := d.Location()
		if math.IsNaN(p.Lat) || math.IsNaN(p.Lon) || !validCoord(p) || limit < 1 && offBy(p, lat, lon) > limit+0.01 {
			j.Fail(name+"/steppable", cs, "%s: after %d steps the tracker is at %v", cs, k+1, p)
			return
		}
		j.Transition()
	}
	if !moved || len(seen) == 0 {
		j.Fail(name+"/steppable", cs, "%s: no step moves the tracker", cs)
	}
}

func randomRoutesJob(name string, centres []geo.LatLonPoint, tracks []int) Job {
	return Job{Name: name, Variant: Plain, Shards: 8, Run: func(j *J) {
		n := 0
		for _, c := range centres {
			for _, nt := range tracks {
				for _, level := range []int{-5, 0, gpsgen.RouteLevelXS, 9, gpsgen.RouteLevelS, 11, gpsgen.RouteLevelM, gpsgen.RouteLevelL, gpsgen.RouteLevelXL, gpsgen.RouteLevelXXL, 601, 1 << 30} {
					for _, cy := range cyclesOfDraws() {
						n++
						if !j.Mine(n) {
							continue
						}
						cs := fmt.Sprintf("random route at %v,%v with %d tracks of level %d, draws %v...", c.Lat, c.Lon, nt, level, cy)
						if !j.Want(cs) {
							continue
						}
						if j.Expired(name) {
							return
						}
						j.Case(cs)
						j.Eval()
						j.State()
						j.Distinct(cs)
						j.Protect(name+"/panic", cs, func() {
							resetWorld()
							vshim.SetCycle(cy...)
							r := gpsgen.RandomRoute(c.Lon, c.Lat, nt, level)
							judgeRandomRoute(j, name, cs, r, c.Lat, c.Lon, max(nt, 0)+b2i(nt < 0), level, cy)
						})
					}
				}
			}
		}
		if j.Shard == 0 {
			for _, city := range []struct {
				n        string
				lat, lon float64
				f        func() *navigator.Route
			}{{"New York", 40.7128, -74.006, gpsgen.RandomRouteForNewYork}, {"Moscow", 55.7534, 37.6211, gpsgen.RandomRouteForMoscow}, {"Paris", 48.8553, 2.3499, gpsgen.RandomRouteForParis}} {
				for _, cy := range cyclesOfDraws() {
					cs := fmt.Sprintf("random route for %s, draws %v...", city.n, cy)
					if !j.Want(cs) {
						continue
					}
					j.Case(cs)
					j.Eval()
					j.Protect(name+"/panic", cs, func() {
						resetWorld()
						vshim.SetCycle(cy...)
						r := city.f()
						if r == nil || r.NumTracks() < 1 {
							j.Fail(name+"/city", cs, "%s: no route", cs)
							return
						}
						judgeRandomRoute(j, name, cs, r, city.lat, city.lon, r.NumTracks(), gpsgen.RouteLevelL+1, cy)
					})
				}
			}
		}
		j.Sample(fmt.Sprintf("%d centres, %d track counts", len(centres), len(tracks)))
	}}
}

// offBy is how far a point lies from the centre, in degrees.
func offBy(p geo.LatLonPoint, lat, lon float64) float64 {
	return math.Hypot(p.Lat-lat, math.Remainder(p.Lon-lon, 360))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func init() {
	register(&Check{ID: "C20", Level: "exploration",
		Rule:        "a case is one request with one sequence of random draws: every sequence of the listed values for few draws, structured cycles (extremes, alternations, repetitions) for many; country codes are all two-byte strings",
		Assumptions: []string{"the random source yields uniform draws in [0,1); exponential draws are taken from them by inversion", "centres between 80 S and 80 N", "near the centre: within level x (1e-4 + 4e-4 x the largest exponential draw) degrees"},
		Jobs: func(tier string) []Job {
			centres := []geo.LatLonPoint{ll(0, 0), ll(40.7, -74), ll(-33.3, 151.2), ll(79.9, 10)}
			tracks := []int{-1, 0, 1, 2, 3}
			if tier == "thorough" {
				centres = append(centres, ll(-79.5, -170), ll(0, 179.9), ll(12.34, 56.78))
				tracks = append(tracks, 4, 7, 20)
			}
			return []Job{
				randomRoutesJob("C20 many tracks", []geo.LatLonPoint{ll(40.7, -74)}, pick(tier, []int{65, 130, 300}, []int{65, 130, 300, 1030, 5000})),
				countriesJob("C20 countries"),
				worldPointsJob("C20 world"),
				stringsJob("C20 strings"),
				polygonsJob("C20 polygons", pick(tier, 4, 5)),
				randomRoutesJob("C20 routes", centres, tracks),
			}
		}})
}
