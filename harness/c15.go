package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/geojson"
	"github.com/mmadfox/go-gpsgen/navigator"
)

// ---- what an exchange format has to preserve ----

func trackPoints(t *navigator.Track) []geo.LatLonPoint {
	var pts []geo.LatLonPoint
	for i := 0; i < t.NumSegments(); i++ {
		pts = append(pts, t.SegmentAt(i).PointA())
	}
	if n := t.NumSegments(); n > 0 {
		pts = append(pts, t.SegmentAt(n-1).PointB())
	}
	return pts
}

func samePoints(a, b []geo.LatLonPoint, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !(math.Abs(a[i].Lat-b[i].Lat) <= tol && math.Abs(a[i].Lon-b[i].Lon) <= tol) {
			return false
		}
	}
	return true
}

// exchanged compares routes with those read back from an exchange format.
func exchanged(a, b []*navigator.Route, tol float64) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d routes, not %d", len(b), len(a))
	}
	metres := 0.3 * tol / 1e-6 // what the coordinates' tolerance amounts to
	for i := range a {
		x, y := a[i], b[i]
		if x.ID() != y.ID() || x.Color() != y.Color() || x.Name().String() != y.Name().String() || x.NumTracks() != y.NumTracks() {
			return fmt.Sprintf("route %d is (%q %q %q %d tracks), not (%q %q %q %d tracks)", i, y.ID(), y.Color(), y.Name(), y.NumTracks(), x.ID(), x.Color(), x.Name(), x.NumTracks())
		}
		if !reflect.DeepEqual(jsonProps(x.Props()), jsonProps(y.Props())) {
			return fmt.Sprintf("route %d has properties %v, not %v", i, y.Props(), x.Props())
		}
		if math.Abs(x.Distance()-y.Distance()) > metres*float64(x.NumTracks()*8)+1e-9*x.Distance() {
			return fmt.Sprintf("route %d is %v m, not %v m", i, y.Distance(), x.Distance())
		}
		for k := 0; k < x.NumTracks(); k++ {
			p, q := x.TrackAt(k), y.TrackAt(k)
			if p.ID() != q.ID() || p.Color() != q.Color() || p.Name().String() != q.Name().String() || p.IsClosed() != q.IsClosed() {
				return fmt.Sprintf("route %d track %d is (%q %q %q closed %v), not (%q %q %q closed %v)", i, k, q.ID(), q.Color(), q.Name(), q.IsClosed(), p.ID(), p.Color(), p.Name(), p.IsClosed())
			}
			if !reflect.DeepEqual(jsonProps(p.Props()), jsonProps(q.Props())) {
				return fmt.Sprintf("route %d track %d has properties %v, not %v", i, k, q.Props(), p.Props())
			}
			if !samePoints(trackPoints(p), trackPoints(q), tol) {
				return fmt.Sprintf("route %d track %d has the points %v, not %v", i, k, trackPoints(q), trackPoints(p))
			}
			if math.Abs(p.Distance()-q.Distance()) > metres*float64(p.NumSegments())+1e-9*p.Distance() {
				return fmt.Sprintf("route %d track %d is %v m, not %v m", i, k, q.Distance(), p.Distance())
			}
			if tol == 0 {
				if m := trackDiff(q, trackPoints(p)); m != "" && trackDiff(p, trackPoints(p)) == "" {
					return fmt.Sprintf("route %d track %d: %s", i, k, m)
				}
			}
		}
	}
	return ""
}

// withTracks is the routes an exchange format keeps.
func withTracks(rs []*navigator.Route) (out []*navigator.Route) {
	for _, r := range rs {
		if r.NumTracks() > 0 {
			out = append(out, r)
		}
	}
	return
}

type codec struct {
	n      string
	enc    func([]*navigator.Route) ([]byte, error)
	dec    func([]byte) ([]*navigator.Route, error)
	tol    float64
	prep   func([]*navigator.Route) // leaves only what the format is to preserve
	verify func([]byte, []*navigator.Route) string
}

// judgeExchange makes the judge of one route list for one format.
func judgeExchange(name string, c codec) func(j *J, cs string, rs []*navigator.Route) {
	return func(j *J, cs string, rs []*navigator.Route) {
		if c.prep != nil {
			c.prep(rs)
		}
		j.Eval()
		for _, r := range rs {
			_ = r.Props() // made when first asked for
			for k := 0; k < r.NumTracks(); k++ {
				_ = r.TrackAt(k).Props()
			}
		}
		before := snapAll(rs)
		j.Distinct(before)
		b, err := c.enc(rs)
		if err != nil {
			j.Fail(name+"/encode", cs, "%s: encoding: %v", cs, err)
			return
		}
		if snapAll(rs) != before {
			j.Fail(name+"/encode", cs, "%s: encoding changed the routes", cs)
		}
		keep := append([]byte(nil), b...)
		got, err := c.dec(b)
		if err != nil {
			j.Fail(name+"/decode", cs, "%s: decoding what was encoded: %v\n%s", cs, err, clip(string(b), 1500))
			return
		}
		if !bytes.Equal(b, keep) {
			j.Fail(name+"/decode", cs, "%s: decoding changed the document", cs)
		}
		want := withTracks(rs)
		if m := exchanged(want, got, c.tol); m != "" {
			j.Fail(name+"/preserved", cs, "%s: read back: %s\n%s", cs, m, clip(string(b), 1500))
			return
		}
		if c.verify != nil {
			if m := c.verify(b, want); m != "" {
				j.Fail(name+"/document", cs, "%s: %s\n%s", cs, m, clip(string(b), 1500))
			}
		}
		j.Transition()
		// a second time round, and the copies are copies
		if len(got) > 0 {
			b2, err := c.enc(got)
			if err != nil {
				j.Fail(name+"/again", cs, "%s: encoding the decoded routes: %v", cs, err)
				return
			}
			got2, err := c.dec(b2)
			if err != nil {
				j.Fail(name+"/again", cs, "%s: decoding again: %v", cs, err)
				return
			}
			if m := exchanged(got, got2, c.tol); m != "" {
				j.Fail(name+"/again", cs, "%s: read back a second time: %s", cs, m)
			}
			for i := range b {
				b[i] ^= 0x15
			}
			was := snapAll(got2)
			for _, g := range got {
				g.Props().Set("only here", "1")
				must(g.ChangeName("only here"))
				for i := 0; i < g.NumTracks(); i++ {
					g.TrackAt(i).Props().Set("only here", "1")
					must(g.TrackAt(i).ChangeName("only here"))
				}
			}
			if snapAll(got2) != was || exchanged(want, got2, 2*c.tol) != "" {
				j.Fail(name+"/shared", cs, "%s: editing the decoded routes changed others", cs)
			}
			// and they can be walked
			d := newDev("dev", skipOff, static(1))
			if err := d.AddRoute(got2...); err != nil {
				j.Fail(name+"/used", cs, "%s: %v", cs, err)
			}
			for k := 0; k < 3; k++ {
				d.Next(1)
			}
			_ = d.State()
			j.Trace()
		}
	}
}

func geoJSONCodec() codec {
	return codec{n: "GeoJSON", enc: gpsgen.EncodeGeoJSONRoutes, dec: gpsgen.DecodeGeoJSONRoutes,
		verify: func(b []byte, want []*navigator.Route) string {
			fc, err := geojson.ParseFeatureCollection(b)
			if err != nil || len(fc.Features) != len(want) {
				return fmt.Sprintf("the document does not parse as one feature per route: %v", err)
			}
			var doc map[string]interface{}
			if err := json.Unmarshal(b, &doc); err != nil || doc["type"] != "FeatureCollection" {
				return fmt.Sprintf("the document is not a feature collection: %v", err)
			}
			return ""
		}}
}

// oddPoints are coordinates that are hard to print.
var oddPoints = []geo.LatLonPoint{
	ll(0, 0), ll(10, 20), ll(-80, 100), ll(90, 180), ll(-90, -180), ll(0.1, 0.30000000000000004), ll(12.345678901234567, -98.76543210987654),
	ll(1e-9, -1e-9), ll(1e-15, 5e-324), ll(0, 100), ll(50, 0), ll(-0.00000000004, 170), ll(1.0000000001, 2.00000000001), ll(89.99999999999999, 179.99999999999997), ll(-10.5, -120),
	ll(30.000000000049, 40.00000000005), ll(100.0/3, 200.0/3), ll(7, 1000.0/9), ll(math.Copysign(0, -1), math.Copysign(0, -1)),
}

// coordinatesJob takes every pair of odd coordinates through the format.
func coordinatesJob(name string, c codec) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		judge := judgeExchange(name, c)
		mid := ll(11.1, 22.2)
		for _, p := range oddPoints {
			for _, q := range oddPoints {
				for shape := 0; shape < 4; shape++ {
					pts := [][]geo.LatLonPoint{{p, q}, {p, q, p}, {p, mid, q}, {p, q, mid, p}}[shape]
					cs := fmt.Sprintf("track %v", pts)
					if !j.Want(cs) {
						continue
					}
					j.Case(cs)
					j.State()
					j.Protect(name+"/panic", cs, func() {
						resetWorld()
						t, err := navigator.NewTrack(pts)
						must(err)
						judge(j, cs, []*navigator.Route{route(t)})
					})
				}
			}
		}
		for n := 2; n <= 300; n += 1 + n/3 {
			cs := fmt.Sprintf("track of %d points", n)
			if !j.Want(cs) {
				continue
			}
			j.Case(cs)
			j.State()
			var pts []geo.LatLonPoint
			for i := 0; i < n; i++ {
				pts = append(pts, ll(10+float64(i)/7, 20+float64(i*i%97)/13))
			}
			t, err := navigator.NewTrack(pts)
			must(err)
			judge(j, cs, []*navigator.Route{route(t, lineTrack(1, 2, 3))})
		}
		for _, e := range [][]*navigator.Route{nil, {}} {
			if b, err := c.enc(e); err == nil {
				j.Fail(name+"/empty", "empty", "encoding no routes gives %q and no error", b)
			}
		}
		j.Sample(fmt.Sprintf("%d odd points in pairs, four shapes", len(oddPoints)))
	}}
}

var textValues = []string{"text", "", "ünïcode \u2028 <&> \"q\"", "a'b", " lead and trail ", "tab\there\nnew\rline", "12", "-7.5", "true", "T", "NaN", "0x10", "null", "[1]", "{}", "]]>", "&amp;", "<!--", strings.Repeat("long ", 300), "日本", "\U0001F6F0",
	"5m", "1h30m", "10:30", "2026-01-02", "1,5", "1_000", "0b11", "0o17", "1e5x", "50%", "+", "-", ".", "yes", "off", "nil", "#ff0000", "/a/b?c=d&e=f", "a=b", "١٢", "½", "\u00a0x\u00a0", "tRUE", "--", "e\u0301"}

// namesJob takes every name and text property through the format.
func namesJob(name string, c codec) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		judge := judgeExchange(name, c)
		for i, v := range textValues {
			for _, v2 := range textValues {
				cs := fmt.Sprintf("text %.40q and %.40q", v, v2)
				if !j.Want(cs) {
					continue
				}
				j.Case(cs)
				j.State()
				j.Protect(name+"/panic", cs, func() {
					resetWorld()
					r := route(lineTrack(1, 2, 3), lineTrack(3, 4, 5, 6))
					_ = r.ChangeName(v)
					_ = r.TrackAt(0).ChangeName(v2)
					r.Props().Set("key", v2).Set("other", v)
					r.TrackAt(1).Props().Set("key", v)
					if i%2 == 0 {
						r.TrackAt(0).Props().Set("k2", v2)
					}
					judge(j, cs, []*navigator.Route{r, route(lineTrack(5, 6, 7))})
				})
			}
		}
		j.Sample(fmt.Sprintf("%d texts in pairs", len(textValues)))
	}}
}

// idsJob takes ids of every length and kind through the format.
func idsJob(name string, c codec) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		judge := judgeExchange(name, c)
		ids := []string{"i", longID, longID + "x", strings.Repeat("0123456789", 30), "with space", "ünïcode日本", "<&>\"'", "12", "true", "#", "a/b?c", "]]>", "NaN"}
		for _, a := range ids {
			for _, b := range ids {
				cs := fmt.Sprintf("ids %.40q and %.40q", a, b)
				if !j.Want(cs) {
					continue
				}
				j.Case(cs)
				j.State()
				j.Protect(name+"/panic", cs, func() {
					resetWorld()
					tr := func(id string, lat float64) *navigator.Track {
						t, err := navigator.RestoreTrack(id, "#123456", trackPoints(lineTrack(lat, 2, 3, 4)))
						must(err)
						return t
					}
					r1, r2 := navigator.RestoreRoute(a, "#112233", nil), navigator.RestoreRoute(b, "#223344", nil)
					r1.AddTrack(tr(b, 1)).AddTrack(tr(a, 2)).AddTrack(tr(b, 3))
					r2.AddTrack(tr(a, 4))
					judge(j, cs, []*navigator.Route{r1, r2, r1})
				})
			}
		}
		j.Sample(fmt.Sprintf("%d ids in pairs, repeated", len(ids)))
	}}
}

// freeKeys are property keys that look like parts of the formats and are not
// among their reserved metadata names.
var freeKeys = []string{"type", "title", "ID", "Id", "Name", "names", "Color", "colour", "geometry", "geometries", "features", "bbox", "coordinates", "time", "unit", "route", "track", "tracks", "info", "lat", "lon", "a", "_", "distances", "num", "props", "version", "desc", "cmt", "src", "href", "gpsgen", "length",
	"lang", "trackID", "numSegments", "properties", "segments", "points", "number", "speed", "closed", "link", "ele", "id2"}

// keysJob takes properties under every key, alone, in pairs and on every level,
// through the format.
func keysJob(name string, c codec, more ...string) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		judge := judgeExchange(name, c)
		keys := append(append([]string(nil), freeKeys...), more...)
		for _, k := range keys {
			for _, k2 := range keys {
				for level := 0; level < 3; level++ {
					cs := fmt.Sprintf("keys %q and %q, level %d", k, k2, level)
					if !j.Want(cs) {
						continue
					}
					j.Case(cs)
					j.State()
					j.Protect(name+"/panic", cs, func() {
						resetWorld()
						r := route(lineTrack(1, 2, 3), lineTrack(3, 4, 5, 6))
						switch level {
						case 0:
							r.Props().Set(k, "v").Set(k2, "w")
						case 1:
							r.TrackAt(0).Props().Set(k, "v")
							r.TrackAt(1).Props().Set(k2, "w")
						case 2:
							r.Props().Set(k, "v")
							r.TrackAt(1).Props().Set(k, "u").Set(k2, "w")
						}
						judge(j, cs, []*navigator.Route{route(lineTrack(5, 6, 7)), r})
					})
				}
			}
		}
		j.Sample(fmt.Sprintf("%d keys in pairs on three levels", len(keys)))
	}}
}

// ---- foreign GeoJSON ----

// shape is one geometry document and what it is to be read as.
type shape struct {
	doc    string
	tracks [][]geo.LatLonPoint
	err    bool
}

var fpts = []geo.LatLonPoint{ll(10, 20), ll(10.25, 20.125), ll(-33.3333333333, 151.2), ll(0, -179.5), ll(89.9, 0.1)}

func coordDoc(pts []geo.LatLonPoint) string {
	var s []string
	for i, p := range pts {
		alt := ""
		if i%3 == 2 {
			alt = ",12.5" // an altitude is allowed and dropped
		}
		s = append(s, fmt.Sprintf("[%v,%v%s]", p.Lon, p.Lat, alt))
	}
	return "[" + strings.Join(s, ",") + "]"
}

// lines are all the point lists used: open ones of 0..4 points and closed ones.
func lines() [][]geo.LatLonPoint {
	out := [][]geo.LatLonPoint{}
	for n := 0; n <= 4; n++ {
		out = append(out, fpts[:n])
	}
	out = append(out, []geo.LatLonPoint{fpts[1], fpts[2], fpts[1]}, []geo.LatLonPoint{fpts[0], fpts[1], fpts[2], fpts[0]}, []geo.LatLonPoint{fpts[4], fpts[4]})
	return out
}

func asTracks(ls ...[]geo.LatLonPoint) (tracks [][]geo.LatLonPoint, err bool) {
	for _, l := range ls {
		if len(l) < 2 {
			return nil, true
		}
		tracks = append(tracks, l)
	}
	return tracks, false
}

// geometries enumerates the geometry documents.
func geometries(depth int) []shape {
	ls := lines()
	var out []shape
	add := func(typ, coords string, ls ...[]geo.LatLonPoint) {
		t, e := asTracks(ls...)
		out = append(out, shape{fmt.Sprintf(`{"type":"%s","coordinates":%s}`, typ, coords), t, e})
	}
	bad := func(doc string) { out = append(out, shape{doc, nil, true}) }
	for _, l := range ls {
		add("LineString", coordDoc(l), l)
		add("MultiPoint", coordDoc(l), l)
		add("Polygon", "["+coordDoc(l)+"]", l)
		add("MultiLineString", "["+coordDoc(l)+"]", l)
		add("MultiPolygon", "[["+coordDoc(l)+"]]", l)
	}
	add("Polygon", "[]")
	add("MultiLineString", "[]")
	add("MultiPolygon", "[]")
	add("MultiPolygon", "[[]]")
	for _, a := range ls {
		for _, b := range ls {
			add("MultiLineString", "["+coordDoc(a)+","+coordDoc(b)+"]", a, b)
			add("Polygon", "["+coordDoc(a)+","+coordDoc(b)+"]", a) // the second ring is a hole
			add("MultiPolygon", "[["+coordDoc(a)+"],["+coordDoc(b)+"]]", a, b)
			add("MultiPolygon", "[["+coordDoc(a)+","+coordDoc(b)+"],[],["+coordDoc(b)+"]]", a, b)
			for _, c := range ls[:3*b2i(depth > 1)] {
				add("MultiLineString", "["+coordDoc(a)+","+coordDoc(c)+","+coordDoc(b)+"]", a, c, b)
			}
		}
	}
	bad(`{"type":"Point","coordinates":[1,2]}`)
	bad(`{"type":"Circle","coordinates":[1,2]}`)
	bad(`{"type":"LineString"}`)
	bad(`{"type":"LineString","coordinates":null}`)
	bad(`{"type":"LineString","coordinates":[1,2]}`)
	bad(`{"type":"LineString","coordinates":[[["a"]]]}`)
	bad(`{"type":"Polygon","coordinates":[[1,2],[3,4]]}`)
	bad(`{"coordinates":[[1,2],[3,4]]}`)
	bad(`null`)
	bad(`{}`)
	bad(`[]`)
	bad(`"LineString"`)
	if depth == 0 {
		return out
	}
	// collections of a few of each kind
	var members []shape
	seen := map[string]int{}
	for _, g := range geometries(0) {
		k := fmt.Sprintf("%.12s %d %v", g.doc[min(len(g.doc), 9):], min(len(g.tracks), 2), g.err)
		if seen[k]++; seen[k] <= 1 {
			members = append(members, g)
		}
	}
	collect := func(ms ...shape) shape {
		var docs []string
		s := shape{}
		for _, m := range ms {
			docs = append(docs, m.doc)
			s.err = s.err || m.err
			s.tracks = append(s.tracks, m.tracks...)
		}
		if s.err {
			s.tracks = nil
		}
		s.doc = `{"type":"GeometryCollection","geometries":[` + strings.Join(docs, ",") + `]}`
		return s
	}
	out = append(out, collect())
	for _, a := range members {
		if a.doc == "null" {
			continue
		}
		out = append(out, collect(a))
		n := collect(collect(a)) // collections in collections are not supported
		n.err, n.tracks = true, nil
		out = append(out, n)
		for _, b := range members {
			if b.doc == "null" {
				continue
			}
			out = append(out, collect(a, b), collect(b, a, b))
		}
	}
	return out
}

// judgeForeign compares imported routes with the expected ones.
func judgeForeign(j *J, name, cs, doc string, want []shape, props []map[string]interface{}, rs []*navigator.Route, err error) {
	bad := false
	for _, w := range want {
		bad = bad || w.err
	}
	if bad {
		if err == nil {
			j.Fail(name+"/error", cs, "%s: imported without an error as %d routes\n%s", cs, len(rs), clip(doc, 1500))
		}
		if len(rs) > 0 && err != nil {
			j.Fail(name+"/error", cs, "%s: an error and %d routes\n%s", cs, len(rs), clip(doc, 1500))
		}
		return
	}
	if err != nil {
		j.Fail(name+"/import", cs, "%s: %v\n%s", cs, err, clip(doc, 1500))
		return
	}
	if len(rs) != len(want) {
		j.Fail(name+"/routes", cs, "%s: imported as %d routes, not %d\n%s", cs, len(rs), len(want), clip(doc, 1500))
		return
	}
	ids := map[string]bool{}
	for i, r := range rs {
		if r == nil || r.ID() == "" || ids[r.ID()] || r.Color() == "" {
			j.Fail(name+"/fresh", cs, "%s: route %d has the id %q and colour %q", cs, i, r.ID(), r.Color())
			return
		}
		ids[r.ID()] = true
		if r.NumTracks() != len(want[i].tracks) {
			j.Fail(name+"/tracks", cs, "%s: route %d has %d tracks, not %d\n%s", cs, i, r.NumTracks(), len(want[i].tracks), clip(doc, 1500))
			return
		}
		for k, pts := range want[i].tracks {
			t := r.TrackAt(k)
			if t.ID() == "" || ids[t.ID()] || t.Color() == "" {
				j.Fail(name+"/fresh", cs, "%s: route %d track %d has the id %q and colour %q", cs, i, k, t.ID(), t.Color())
			}
			ids[t.ID()] = true
			if !samePoints(trackPoints(t), pts, 0) {
				j.Fail(name+"/points", cs, "%s: route %d track %d has the points %v, not %v\n%s", cs, i, k, trackPoints(t), pts, clip(doc, 1500))
				return
			}
			if m := trackDiff(t, pts); m != "" {
				j.Fail(name+"/track", cs, "%s: route %d track %d: %s", cs, i, k, m)
			}
		}
		var p map[string]interface{}
		if props != nil {
			p = props[i]
		}
		if len(p)+len(r.Props()) > 0 && !reflect.DeepEqual(map[string]interface{}(r.Props()), p) {
			j.Fail(name+"/properties", cs, "%s: route %d has the properties %v, not %v", cs, i, r.Props(), p)
		}
	}
	if len(rs) > 0 {
		d := newDev("dev", skipOff, static(1))
		must(d.AddRoute(rs...))
		for k := 0; k < 3; k++ {
			d.Next(1)
		}
		_ = d.State()
	}
}

var foreignProps = []string{"", `"properties":null,`, `"properties":{},`, `"properties":{"name":"a name","n":1.5,"list":[1,"x",null,{"y":true}]},`,
	`"properties":{"color":"#ffffff","units":"m","distance":3,"tracksInfo":"x"},`, `"properties":{"routeID":"r","numTracks":5},`}

func featureDoc(geometry, props, extra string) string {
	return `{"type":"Feature",` + props + extra + `"geometry":` + geometry + `}`
}

func memberProps(doc string) map[string]interface{} {
	var m struct{ Properties map[string]interface{} }
	must(json.Unmarshal([]byte("{"+doc+`"x":0}`), &m))
	return m.Properties
}

func foreignGeoJSONJob(name string, depth int) Job {
	return Job{Name: name, Variant: Plain, Shards: 8, Run: func(j *J) {
		gs := geometries(depth)
		n := 0
		run := func(cs, doc string, want []shape, props []map[string]interface{}) {
			n++
			if !j.Mine(n) || !j.Want(cs) || j.Expired(name) {
				return
			}
			j.Case(cs)
			j.Eval()
			j.State()
			j.Distinct(doc)
			j.Protect(name+"/panic", cs, func() {
				resetWorld()
				rs, err := gpsgen.DecodeGeoJSONRoutes([]byte(doc))
				judgeForeign(j, name, cs, doc, want, props, rs, err)
				j.Transition()
			})
		}
		fc := func(features ...string) string {
			return `{"type":"FeatureCollection","features":[` + strings.Join(features, ",") + `]}`
		}
		for i, g := range gs {
			for k, p := range foreignProps {
				if k > 0 && i%7 != 0 && len(g.tracks) > 1 {
					continue
				}
				run(fmt.Sprintf("geometry %d (%.60s), properties %d", i, g.doc, k), fc(featureDoc(g.doc, p, [...]string{"", `"id":7,`, `"id":"f","bbox":[1,2,3,4],`}[(i+k)%3])), []shape{g}, []map[string]interface{}{memberProps(p)})
			}
		}
		// lists of features
		var pickd []shape
		seen := map[string]bool{}
		for _, g := range gs {
			k := fmt.Sprintf("%.16s %d %v", g.doc[min(len(g.doc), 9):], len(g.tracks), g.err)
			if !seen[k] {
				seen[k] = true
				pickd = append(pickd, g)
			}
		}
		for i, a := range pickd {
			for k, b := range pickd {
				p, q := foreignProps[i%len(foreignProps)], foreignProps[k%len(foreignProps)]
				run(fmt.Sprintf("features (%.50s) and (%.50s)", a.doc, b.doc), fc(featureDoc(a.doc, p, ""), featureDoc(b.doc, q, "")), []shape{a, b}, []map[string]interface{}{memberProps(p), memberProps(q)})
				run(fmt.Sprintf("features (%.50s), (%.50s), a line, and the first", a.doc, b.doc), fc(featureDoc(a.doc, p, ""), featureDoc(b.doc, q, ""), featureDoc(gs[10].doc, "", ""), featureDoc(a.doc, p, "")),
					[]shape{a, b, gs[10], a}, []map[string]interface{}{memberProps(p), memberProps(q), nil, memberProps(p)})
			}
		}
		// other documents
		line := gs[10].doc
		for _, d := range []string{line, featureDoc(line, "", ""), `[]`, `null`, `1`, `"x"`, ``, ` `, `{`, `{"type":"FeatureCollection","features":[{}]}`, `{"type":"FeatureCollection","features":[null]}`,
			`{"type":"FeatureCollection","features":[` + line + `]}`, `{"type":"FeatureCollection","features":5}`, `{"type":"Collection","features":[]}`, `{"features":[]}`, `{}`, fc(featureDoc(line, "", "")) + "x",
			`{"type":"FeatureCollection","features":[` + strings.Replace(featureDoc(line, "", ""), "Feature", "feature", 1) + `]}`} {
			run("document "+clip(d, 100), d, []shape{{err: true}}, nil)
		}
		run("no features", fc(), nil, nil)
		run("members of no meaning", `{"type":"FeatureCollection","crs":{"type":"name"},"bbox":[1,2,3,4],"features":[`+featureDoc(line, "", `"when":{},`)+`],"etc":[]}`, []shape{gs[10]}, nil)
		j.Sample(fmt.Sprintf("%d geometries", len(gs)))
	}}
}

// regeom replaces the last geometry of a feature by one of another type whose
// points are nested nest deep (a single one when negative).
func regeom(f map[string]interface{}, typ string, nest int) {
	pts := []interface{}{[]float64{1, 2}, []float64{3, 4}, []float64{3, 5}, []float64{1, 2}}
	var coords interface{} = pts
	if nest < 0 {
		pts, nest = pts[:1], -nest-1
		coords = pts
	}
	for i := 0; i < nest; i++ {
		coords = []interface{}{coords}
	}
	x := map[string]interface{}{"type": typ, "coordinates": coords}
	if typ == "" {
		x = map[string]interface{}{"type": "GeometryCollection", "geometries": []interface{}{
			map[string]interface{}{"type": "GeometryCollection", "geometries": []interface{}{map[string]interface{}{"type": "LineString", "coordinates": coords}}}}}
	}
	g := f["geometry"].(map[string]interface{})
	if g["type"] == "GeometryCollection" {
		l := g["geometries"].([]interface{})
		l[len(l)-1] = x
	} else {
		f["geometry"] = x
	}
}

// metadataJob alters the metadata of exported documents: numbers that do not
// match the geometry are errors.
func geoJSONMetadataJob(name string) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		for _, lens := range [][]int{{1}, {2}, {3}, {1, 2}, {2, 2}} {
			for at := range lens {
				type edit struct {
					n  string
					f  func(props map[string]interface{}, feature map[string]interface{})
					ok bool
				}
				infos := func(p map[string]interface{}) []interface{} { return p["tracksInfo"].([]interface{}) }
				for _, e := range []edit{
					{"nothing", func(p, f map[string]interface{}) {}, true},
					{"a member added", func(p, f map[string]interface{}) { p["etc"] = 1.0 }, true},
					{"the last track's record removed", func(p, f map[string]interface{}) { t := infos(p); p["tracksInfo"] = t[:len(t)-1] }, false},
					{"the first track's record removed", func(p, f map[string]interface{}) { t := infos(p); p["tracksInfo"] = t[1:] }, false},
					{"a track's record repeated", func(p, f map[string]interface{}) { t := infos(p); p["tracksInfo"] = append(t, t[0]) }, false},
					{"no track records", func(p, f map[string]interface{}) { delete(p, "tracksInfo") }, false},
					{"track records of a wrong type", func(p, f map[string]interface{}) { p["tracksInfo"] = "x" }, false},
					{"a track record of a wrong type", func(p, f map[string]interface{}) { infos(p)[0] = 7.0 }, false},
					{"a track without id", func(p, f map[string]interface{}) { delete(infos(p)[0].(map[string]interface{}), "trackID") }, false},
					{"no geometry", func(p, f map[string]interface{}) { f["geometry"] = nil }, false},
					{"a geometry of several lines", func(p, f map[string]interface{}) {
						f["geometry"] = map[string]interface{}{"type": "MultiLineString", "coordinates": [][][]float64{{{1, 2}, {3, 4}}, {{1, 2}, {3, 4}}}}
					}, false},
					{"one line as several lines", func(p, f map[string]interface{}) { regeom(f, "MultiLineString", 1) }, false},
					{"one polygon as several polygons", func(p, f map[string]interface{}) { regeom(f, "MultiPolygon", 2) }, false},
					{"points instead of a line", func(p, f map[string]interface{}) { regeom(f, "MultiPoint", 0) }, false},
					{"a collection instead of a line", func(p, f map[string]interface{}) { regeom(f, "", 0) }, false},
					{"a line of one point", func(p, f map[string]interface{}) { regeom(f, "LineString", -1) }, false},
					{"a ring of one point", func(p, f map[string]interface{}) { regeom(f, "Polygon", -2) }, false},
					{"a geometry more", func(p, f map[string]interface{}) {
						l := map[string]interface{}{"type": "LineString", "coordinates": [][]float64{{1, 2}, {3, 4}}}
						g := f["geometry"].(map[string]interface{})
						if g["type"] == "GeometryCollection" {
							g["geometries"] = append(g["geometries"].([]interface{}), l)
						} else {
							f["geometry"] = map[string]interface{}{"type": "GeometryCollection", "geometries": []interface{}{g, l}}
						}
					}, false},
				} {
					cs := fmt.Sprintf("routes of %v tracks, route %d: %s", lens, at, e.n)
					if !j.Want(cs) {
						continue
					}
					j.Case(cs)
					j.Eval()
					j.State()
					j.Distinct(cs)
					j.Protect(name+"/panic", cs, func() {
						resetWorld()
						var rs []*navigator.Route
						for _, n := range lens {
							r := route()
							for k := 0; k < n; k++ {
								r.AddTrack(lineTrack(float64(k), 2, 5, 6))
							}
							rs = append(rs, r)
						}
						b, err := gpsgen.EncodeGeoJSONRoutes(rs)
						must(err)
						var doc map[string]interface{}
						must(json.Unmarshal(b, &doc))
						f := doc["features"].([]interface{})[at].(map[string]interface{})
						e.f(f["properties"].(map[string]interface{}), f)
						b, err = json.Marshal(doc)
						must(err)
						got, err := gpsgen.DecodeGeoJSONRoutes(b)
						if (err == nil) != e.ok {
							j.Fail(name+"/inconsistent", cs, "%s: %d routes, error %v\n%s", cs, len(got), err, clip(string(b), 1500))
						}
						j.Transition()
					})
				}
			}
		}
		j.Sample("edits of the metadata of exported documents")
	}}
}

func init() {
	register(&Check{ID: "C15", Level: "exploration",
		Rule:        "a case is one list of routes exported, imported, compared, exported and imported again; or one foreign document of an enumerated grammar of geometries, features and properties compared with a reference reading; or one alteration of an exported document",
		Assumptions: []string{"property keys other than the reserved metadata names", "JSON-compatible property values; whole numbers below 2^53", "valid UTF-8 names", "finite coordinates"},
		Jobs: func(tier string) []Job {
			c := geoJSONCodec()
			return []Job{
				eachRouteList("C15 route lists", pick(tier, 4, 5), pick(tier, 3, 4), jsonValues, judgeExchange("C15 route lists", c), nil),
				coordinatesJob("C15 coordinates", c),
				namesJob("C15 texts", c),
				idsJob("C15 ids", c),
				keysJob("C15 keys", c, "id", "key with space", "", "x:y", "ключ", "a.b", "<k>"),
				foreignGeoJSONJob("C15 foreign", 2),
				geoJSONMetadataJob("C15 metadata"),
				largeListsJob("C15 large lists", tier, judgeExchange("C15 large lists", c)),
			}
		}})
}
