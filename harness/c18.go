package harness

import (
	"fmt"
	"math"

	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
)

// lattice of points: ordinary places, poles, antimeridian, equator, and the
// edges of minutes, UTM zones and bands.
func lattice(dense bool) []geo.LatLonPoint {
	lats := []float64{-90, -89.9999, -80.5, -80, -72.000001, -45.123456, -33.3, -10 - 1.0/60, -1e-6, 0, 1e-6, 1.0 / 60, 10.016666666666667, 23.5, 40.7128, 55.753437, 56, 59.9999999, 63.999999, 72, 78.3, 84, 84.5, 89.9999, 90}
	lons := []float64{-180, -179.9999, -120, -90.5 - 1.0/3600, -74.006, -6, -1e-6, 0, 1e-6, 3, 5.999999, 6, 9, 12, 20.999999, 21, 33, 37.621, 42, 90, 120.5, 179.9999, 180}
	if !dense {
		lats = []float64{-90, -72, -33.3, -1e-6, 0, 10.016666666666667, 55.753437, 84.5, 90}
		lons = []float64{-180, -90.5, -1e-6, 0, 37.621, 120.5, 179.9999, 180}
	}
	var out []geo.LatLonPoint
	for _, a := range lats {
		for _, o := range lons {
			out = append(out, ll(a, o))
		}
	}
	if dense { // antipodes, also where rounding shows
		for _, p := range append([]geo.LatLonPoint{ll(47.548741922146746, 72.34832481242873), ll(47.74913452746998, 22.11527617858157), ll(46.742305610335706, 44.7767976962212), ll(40.52072434193704, 138.57616133914527)}, out...) {
			if p.Lon > 0 && p.Lat != 0 && math.Abs(p.Lat) < 89 {
				out = append(out, p, ll(-p.Lat, p.Lon-180))
			}
		}
	}
	return out
}

func validCoord(p geo.LatLonPoint) bool {
	return p.Lat >= -90 && p.Lat <= 90 && p.Lon >= -180 && p.Lon <= 180
}

// initial direction from a, as a unit vector in the tangent plane.
func direction(a geo.LatLonPoint, bearing float64) vec {
	la, lo := a.Lat*math.Pi/180, a.Lon*math.Pi/180
	n := vec{-math.Sin(la) * math.Cos(lo), -math.Sin(la) * math.Sin(lo), math.Cos(la)}
	e := vec{-math.Sin(lo), math.Cos(lo), 0}
	b := bearing * math.Pi / 180
	return n.scale(math.Cos(b)).add(e.scale(math.Sin(b)))
}

// reach is the point at a distance in a direction.
func reach(a geo.LatLonPoint, bearing, d float64) geo.LatLonPoint {
	th := d / earthR
	p := toVec(a).scale(math.Cos(th)).add(direction(a, bearing).scale(math.Sin(th)))
	return ll(math.Atan2(p.z, math.Hypot(p.x, p.y))*180/math.Pi, math.Atan2(p.y, p.x)*180/math.Pi)
}

// geoTol: arcsines lose digits at the poles and antipodes.
func geoTol(ps ...geo.LatLonPoint) float64 {
	t := 1e-3
	for _, p := range ps {
		if math.Abs(p.Lat) > 89.99 {
			t = 0.3
		}
	}
	return t
}

func gdist(a, b geo.LatLonPoint) float64 { return geo.Distance(a.Lat, a.Lon, b.Lat, b.Lon) }

func destinationsJob(name string, pts []geo.LatLonPoint, bearings, dists []float64) Job {
	return Job{Name: name, Variant: Plain, Shards: 8, Run: func(j *J) {
		half := math.Pi * earthR
		for i, a := range pts {
			if !j.Mine(i) {
				continue
			}
			if j.Expired(name) {
				return
			}
			j.State()
			for _, b := range bearings {
				for _, d := range dists {
					cs := fmt.Sprintf("from %v,%v bearing %v for %v m", a.Lat, a.Lon, b, d)
					if !j.Want(cs) {
						continue
					}
					j.Case(cs)
					j.Eval()
					j.Distinct(cs)
					j.Protect(name+"/panic", cs, func() {
						la, lo := geo.Destination(a.Lat, a.Lon, d, b)
						p := ll(la, lo)
						if !validCoord(p) || math.IsNaN(la) || math.IsNaN(lo) {
							j.Fail(name+"/valid", cs, "%s ends at %v,%v", cs, la, lo)
							return
						}
						want := reach(a, b, d)
						if e := dist(p, want); !(e <= geoTol(p, want)) {
							j.Fail(name+"/place", cs, "%s ends at %v, expected %v (%v m off)", cs, p, want, e)
							return
						}
						// the distance travelled, the short way round
						short := math.Mod(d, 2*half)
						if short > half {
							short = 2*half - short
						}
						tol := geoTol(p, want)
						if short > half-1000 {
							tol = math.Max(tol, 0.3)
						}
						if got := gdist(a, p); !(math.Abs(got-short) <= tol) {
							j.Fail(name+"/distance", cs, "%s ends %v m away, expected %v", cs, got, short)
						}
						// the initial bearing, where it is defined
						if short > 1 && short < half-1e5 && math.Abs(a.Lat) < 89.99 && math.Abs(la) < 89.99 {
							exp := math.Mod(b+360, 360)
							if math.Mod(d, 2*half) > half {
								exp = math.Mod(exp+180, 360)
							}
							got := geo.Bearing(a.Lat, a.Lon, la, lo)
							diff := math.Abs(got - exp)
							diff = math.Min(diff, 360-diff)
							// one hundredth of a metre seen from the distance
							if !(diff <= 1e-6+0.01/math.Min(short, math.Pi*earthR-short)*180/math.Pi) {
								j.Fail(name+"/bearing", cs, "%s: the bearing to the end is %v, expected %v", cs, got, exp)
							}
						}
						j.Transition()
					})
				}
			}
		}
		j.Sample(fmt.Sprintf("%d points, %d bearings, %d distances", len(pts), len(bearings), len(dists)))
	}}
}

func pairsJob(name string, pts []geo.LatLonPoint) Job {
	return Job{Name: name, Variant: Plain, Shards: 8, Run: func(j *J) {
		for i, a := range pts {
			if !j.Mine(i) {
				continue
			}
			if j.Expired(name) {
				return
			}
			j.State()
			for _, b := range pts {
				cs := fmt.Sprintf("between %v,%v and %v,%v", a.Lat, a.Lon, b.Lat, b.Lon)
				if !j.Want(cs) {
					continue
				}
				j.Case(cs)
				j.Eval()
				j.Distinct(cs)
				j.Protect(name+"/panic", cs, func() {
					d, r := gdist(a, b), gdist(b, a)
					ref := dist(a, b)
					tol := 1e-4
					if ref > math.Pi*earthR-1e5 {
						tol = 0.3
					}
					if math.IsNaN(d) || d < 0 || d > math.Pi*earthR*(1+1e-12) || !(math.Abs(d-ref) <= tol+1e-9*ref) {
						j.Fail(name+"/distance", cs, "distance %s is %v, expected %v", cs, d, ref)
					}
					if !(math.Abs(d-r) <= 1e-6+1e-9*d) && !(tol > 0.1 && math.Abs(d-r) <= tol) {
						j.Fail(name+"/symmetric", cs, "distance %s is %v, the other way %v", cs, d, r)
					}
					if (a == b) != (d == 0) && ref > 1e-6 || a == b && d != 0 {
						j.Fail(name+"/zero", cs, "distance %s is %v", cs, d)
					}
					if h := geo.Haversine(a.Lat, a.Lon, b.Lat, b.Lon); !(h >= 0 && h <= 1) || !(math.Abs(geo.DistanceToHaversine(d)-h) <= 1e-9) {
						j.Fail(name+"/haversine", cs, "haversine %s is %v, of the distance %v", cs, h, geo.DistanceToHaversine(d))
					}
					bear := geo.Bearing(a.Lat, a.Lon, b.Lat, b.Lon)
					if !(bear >= 0 && bear < 360) {
						j.Fail(name+"/bearing", cs, "bearing %s is %v", cs, bear)
					}
					// going there leads there (not defined between antipodes)
					if ref < math.Pi*earthR-1e5 {
						la, lo := geo.Destination(a.Lat, a.Lon, d, bear)
						if e := dist(ll(la, lo), b); !validCoord(ll(la, lo)) || !(e <= geoTol(a, b)) {
							j.Fail(name+"/there", cs, "%s: travelling %v m on bearing %v ends at %v,%v (%v m off)", cs, d, bear, la, lo, e)
						}
					}
					// and so does a track
					t, err := navigator.NewTrack([]geo.LatLonPoint{a, b})
					must(err)
					g := t.SegmentAt(0)
					if !eq(g.Distance(), d) || g.Bearing() != bear && math.Abs(g.Bearing()-bear) > 1e-9 {
						j.Fail(name+"/segment", cs, "%s: segment of %v m on bearing %v, expected %v m on %v", cs, g.Distance(), g.Bearing(), d, bear)
					}
					if ref < math.Pi*earthR-1e5 && ref > 0 {
						for _, f := range []float64{0, 0.25, 0.5, 1} {
							p := g.DestinationTo(f * g.Distance())
							w := along(a, b, f*ref)
							if e := dist(p, w); !validCoord(p) || !(e <= geoTol(p, w, a, b)) {
								j.Fail(name+"/along", cs, "%s: %v of the way is %v, expected %v (%v m off)", cs, f, p, w, e)
							}
						}
					}
					j.Transition()
				})
			}
		}
		j.Sample(fmt.Sprintf("all pairs of %d points", len(pts)))
	}}
}

func triplesJob(name string, pts []geo.LatLonPoint) Job {
	return Job{Name: name, Variant: Plain, Shards: 8, Run: func(j *J) {
		for i, a := range pts {
			if !j.Mine(i) {
				continue
			}
			if j.Expired(name) {
				return
			}
			for _, b := range pts {
				for _, c := range pts {
					cs := ""
					if j.Replay != "" {
						if cs = fmt.Sprintf("triple %v %v %v", a, b, c); !j.Want(cs) {
							continue
						}
					}
					j.Eval()
					ab, bc, ac := gdist(a, b), gdist(b, c), gdist(a, c)
					if !(ac <= ab+bc+0.3) || (ab+bc < 1.9e7 && !(ac <= ab+bc+1e-3)) {
						cs = fmt.Sprintf("triple %v %v %v", a, b, c)
						j.Fail(name, cs, "%s: %v m directly, %v + %v m by way", cs, ac, ab, bc)
					}
					j.Transition()
				}
			}
			j.Case(fmt.Sprint(a))
			j.State()
		}
		j.Sample(fmt.Sprintf("all triples of %d points", len(pts)))
	}}
}

// nearJob: points a little apart around each lattice point.
func nearJob(name string, pts []geo.LatLonPoint) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		for _, a := range pts {
			j.State()
			for _, da := range []float64{-1e-3, -1e-6, -1e-9, 0, 1e-9, 1e-6, 1e-3} {
				for _, do := range []float64{-1e-3, -1e-6, -1e-9, 0, 1e-9, 1e-6, 1e-3} {
					b := ll(a.Lat+da, a.Lon+do)
					if !validCoord(b) {
						continue
					}
					cs := fmt.Sprintf("near %v,%v and %v,%v", a.Lat, a.Lon, b.Lat, b.Lon)
					if !j.Want(cs) {
						continue
					}
					j.Case(cs)
					j.Eval()
					j.Distinct(cs)
					d, ref := gdist(a, b), dist(a, b)
					if !(math.Abs(d-ref) <= 1e-6+1e-6*ref) {
						j.Fail(name+"/distance", cs, "distance %s is %v, expected %v", cs, d, ref)
					}
					if a == b && d != 0 || ref > 1e-5 && d == 0 {
						j.Fail(name+"/zero", cs, "distance %s is %v, expected %v", cs, d, ref)
					}
					if bear := geo.Bearing(a.Lat, a.Lon, b.Lat, b.Lon); !(bear >= 0 && bear < 360) {
						j.Fail(name+"/bearing", cs, "bearing %s is %v", cs, bear)
					} else if math.Abs(a.Lat) < 89 && ref > 0.05 {
						la, lo := geo.Destination(a.Lat, a.Lon, d, bear)
						if e := dist(ll(la, lo), b); !(e <= 1e-5) {
							j.Fail(name+"/there", cs, "%s: travelling %v m on bearing %v ends %v m off", cs, d, bear, e)
						}
					}
					j.Transition()
				}
			}
		}
		j.Sample(fmt.Sprintf("neighbourhoods of %d points", len(pts)))
	}}
}

// publishedJob: the DMS and UTM forms a tracker publishes at every point.
func publishedJob(name string, pts []geo.LatLonPoint) Job {
	return Job{Name: name, Variant: Plain, Shards: 8, Run: func(j *J) {
		for i, a := range pts {
			if !j.Mine(i) {
				continue
			}
			if j.Expired(name) {
				return
			}
			cs := fmt.Sprintf("published at %v,%v", a.Lat, a.Lon)
			if !j.Want(cs) {
				continue
			}
			j.Case(cs)
			j.Eval()
			j.Distinct(cs)
			j.State()
			j.Protect(name+"/panic", cs, func() {
				resetWorld()
				b := ll(a.Lat-0.01, a.Lon+0.01)
				if a.Lat < 0 {
					b.Lat = a.Lat + 0.01
				}
				if b.Lon > 180 {
					b.Lon = a.Lon - 0.01
				}
				t, err := navigator.NewTrack([]geo.LatLonPoint{b, a, b})
				must(err)
				d := newDev("dev", skipOff, static(5))
				must(d.AddRoute(route(t)))
				if !d.MoveToSegment(0, 0, 1) {
					j.Fail(name+"/move", cs, "%s: cannot move there", cs)
					return
				}
				d.Update()
				for step := 0; step < 4; step++ {
					p, st := d.Location(), d.State()
					if step == 0 && !near(p, a, 1e-6) {
						j.Fail(name+"/location", cs, "%s: the tracker is at %v", cs, p)
					}
					if st.Location.Lat != p.Lat || st.Location.Lon != p.Lon {
						j.Fail(name+"/location", cs, "%s: published %v,%v, the tracker is at %v", cs, st.Location.Lat, st.Location.Lon, p)
					}
					if m := dmsDiff(p, st.Location); m != "" {
						j.Fail(name+"/dms", cs, "%s", m)
					}
					if m := utmDiff(p, st.Location); m != "" {
						j.Fail(name+"/utm", cs, "%s", m)
					}
					j.Transition()
					d.Next(3)
				}
			})
		}
		j.Sample(fmt.Sprintf("%d points", len(pts)))
	}}
}

func smallGeoJob(name string) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		turn := 2 * math.Pi * earthR
		for _, m := range []float64{0, 1, 1e6, turn / 2, turn - 1, turn + 1, 2.5 * turn, 7 * turn} {
			n := geo.NormalizeDistance(m)
			k := (m - n) / turn
			j.Eval()
			j.State()
			if !(n >= 0 && n < turn) && math.Abs(n-turn) > 1e-3 || math.Abs(k-math.Round(k)) > 1e-9 {
				j.Fail(name+"/normalize", fmt.Sprint(m), "NormalizeDistance(%v) is %v", m, n)
			}
			if m <= turn/2 {
				if d := geo.DistanceFromHaversine(geo.DistanceToHaversine(m)); !(math.Abs(d-m) <= 1e-2) {
					j.Fail(name+"/haversine", fmt.Sprint(m), "the distance of the haversine of %v is %v", m, d)
				}
			}
		}
		vals := []float64{-2, -1, -0.5, 0, 1, 1.5, 3}
		for _, a := range vals {
			for _, b := range vals {
				for _, c := range vals {
					for _, d := range vals {
						if a > c || b > d {
							continue
						}
						bb := geo.BBox{MinLon: a, MinLat: b, MaxLon: c, MaxLat: d}
						j.Eval()
						if !bb.In(bb.Center()) || !eq(bb.Center().Lon-a, c-bb.Center().Lon) || !eq(bb.Center().Lat-b, d-bb.Center().Lat) {
							j.Fail(name+"/centre", fmt.Sprint(bb), "centre of %v is %v", bb, bb.Center())
						}
						for _, x := range vals {
							for _, y := range vals {
								j.Transition()
								if want := x >= a && x <= c && y >= b && y <= d; bb.In(ll(y, x)) != want {
									j.Fail(name+"/in", fmt.Sprint(bb, x, y), "%v in %v: %v", ll(y, x), bb, !want)
								}
							}
						}
					}
				}
			}
		}
		pts := [][2]float64{{0, 0}, {1, 2}, {-0.5, 0.25}}
		got := geo.NormalizeCoordinates(10, 20, pts)
		for i, p := range pts {
			j.Eval()
			if len(got) != len(pts) || got[i] != ll(10+p[0], 20+p[1]) {
				j.Fail(name+"/offset", fmt.Sprint(p), "NormalizeCoordinates gives %v for %v", got, pts)
			}
		}
		j.Distinct(name)
		j.Sample("boxes over a grid of 7 values")
	}}
}

func init() {
	register(&Check{ID: "C18", Level: "exploration",
		Rule:        "a case is one (point, bearing, distance), pair, triple or neighbourhood of lattice points, or one place a tracker publishes; the lattice holds poles, antimeridian, equator and the edges of minutes and UTM zones",
		Assumptions: []string{"tolerance 1 mm, 0.3 m within 0.01 degrees of a pole or near the antipode, where arcsines lose digits", "UTM checked between 80 S and 84 N, where it is defined"},
		Jobs: func(tier string) []Job {
			bearings := []float64{0, 1e-6, 30, 45, 89.999999, 90, 135, 180, 225.5, 270, 300, 359.999999}
			dists := []float64{0, 1e-3, 1, 100, 12345.678, 1e6, 1e7, math.Pi * earthR / 2, math.Pi*earthR - 1, math.Pi * earthR, 1.5 * math.Pi * earthR, 2 * math.Pi * earthR}
			for b := 7.0; b < 360; b += float64(pick(tier, 7, 3)) {
				bearings = append(bearings, b)
			}
			for d := 0.5; d < 4e7; d *= float64(pick(tier, 3, 2)) {
				dists = append(dists, d)
			}
			var pub []geo.LatLonPoint
			pub = append(pub, lattice(true)...)
			step := 1.37 / float64(pick(tier, 1, 3))
			for la := -89.3; la < 90; la += step {
				for lo := -179.7; lo < 180; lo += step {
					pub = append(pub, ll(la, lo))
				}
			}
			all := lattice(true)
			grid := float64(pick(tier, 19, 11))
			for la := -85.5; la < 90; la += grid {
				for lo := -175.5; lo < 180; lo += grid {
					all = append(all, ll(la, lo), ll(-la, lo-180*math.Copysign(1, lo)))
				}
			}
			few := lattice(false)
			for i := 0; i < len(all); i += pick(tier, 7, 5) {
				few = append(few, all[i])
			}
			return []Job{
				destinationsJob("C18 destinations", all, bearings, dists),
				pairsJob("C18 pairs", all),
				triplesJob("C18 triples", few),
				nearJob("C18 near", all),
				publishedJob("C18 published", pub),
				smallGeoJob("C18 small"),
			}
		}})
}
