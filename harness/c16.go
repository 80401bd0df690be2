package harness

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/properties"
)

// readsAsText tells whether a property value survives GPX, which stores text:
// what reads as a number or a truth value is imported as one.
func readsAsText(s string) bool {
	if _, err := strconv.ParseBool(s); err == nil {
		return false
	}
	_, err := strconv.ParseFloat(s, 64)
	return err != nil
}

// textOnly leaves the string properties that GPX is to preserve, under keys
// that are attribute names.
func textOnly(rs []*navigator.Route) {
	fix := func(p properties.Properties) {
		for k, v := range p {
			s, ok := v.(string)
			if ok && readsAsText(s) {
				nk := strings.ReplaceAll(k, " ", "-")
				if nk == "" {
					nk = "_"
				}
				if nk == k {
					continue
				}
				p[nk] = s
			}
			delete(p, k)
		}
	}
	for _, r := range rs {
		fix(r.Props())
		for i := 0; i < r.NumTracks(); i++ {
			fix(r.TrackAt(i).Props())
		}
	}
}

func gpxCodec() codec {
	return codec{n: "GPX", enc: gpsgen.EncodeGPXRoutes, dec: gpsgen.DecodeGPXRoutes, tol: 1.0000001e-10, prep: textOnly,
		verify: func(b []byte, want []*navigator.Route) string {
			n := 0
			for _, r := range want {
				n += r.NumTracks()
			}
			s := string(b)
			if strings.Count(s, "<trkseg") != n || strings.Count(s, "<trk>")+strings.Count(s, "<trk ") < len(want) {
				return fmt.Sprintf("the document does not hold a segment for each of the %d tracks", n)
			}
			return ""
		}}
}

// ---- foreign GPX ----

func ptDoc(tag string, p geo.LatLonPoint, style int) string {
	lat, lon := strconv.FormatFloat(p.Lat, 'f', -1, 64), strconv.FormatFloat(p.Lon, 'f', -1, 64)
	switch style {
	case 1:
		return fmt.Sprintf("<%s lon='%s' lat='%s'/>", tag, lon, lat)
	case 2:
		return fmt.Sprintf("\n <%s lat=\"%s\" lon=\"%s\"><ele>12.5</ele><time>2020-01-02T03:04:05Z</time><name>p &amp; q</name><desc/></%s>\n", tag, lat, lon, tag)
	}
	return fmt.Sprintf("<%s lat=\"%s\" lon=\"%s\"></%s>", tag, lat, lon, tag)
}

func ptsDoc(tag string, l []geo.LatLonPoint, style int) string {
	s := ""
	for i, p := range l {
		k := style
		if style == 3 {
			k = i % 3
		}
		s += ptDoc(tag, p, k)
	}
	return s
}

func gpxDoc(version, body string) string {
	ns := "http://www.topografix.com/GPX/" + strings.Replace(version, ".", "/", 1)
	return `<?xml version="1.0" encoding="UTF-8"?>` + "\n" + `<gpx xmlns="` + ns + `" version="` + version + `" creator="someone">` + body + "</gpx>"
}

func foreignGPXJob(name string, perTrk, perDoc int) Job {
	return Job{Name: name, Variant: Plain, Shards: 8, Run: func(j *J) {
		n := 0
		run := func(cs, doc string, want []shape) {
			n++
			if !j.Mine(n) || !j.Want(cs) || j.Expired(name) {
				return
			}
			j.Case(cs)
			j.Eval()
			j.State()
			j.Distinct(doc)
			j.Protect(name+"/panic", cs, func() {
				resetWorld()
				rs, err := gpsgen.DecodeGPXRoutes([]byte(doc))
				judgeForeign(j, name, cs, doc, want, nil, rs, err)
				j.Transition()
			})
		}
		ls := lines()
		// every track of up to perTrk segments
		type piece struct {
			n, doc string
			want   shape
		}
		var trks []piece
		var rec func(p []int)
		rec = func(p []int) {
			var segs [][]geo.LatLonPoint
			doc := ""
			for i, k := range p {
				segs = append(segs, ls[k])
				doc += "<trkseg>" + ptsDoc("trkpt", ls[k], (i+k)%4) + "</trkseg>"
			}
			t, e := asTracks(segs...)
			pre := [...]string{"", "<name>a track</name>", "\n\t<cmt>c</cmt><desc>d</desc><number>3</number>\n"}[len(p)%3]
			trks = append(trks, piece{fmt.Sprintf("trk%v", p), "<trk>" + pre + doc + "</trk>", shape{tracks: t, err: e}})
			if len(p) == perTrk {
				return
			}
			for k := range ls {
				rec(append(append([]int(nil), p...), k))
			}
		}
		rec(nil)
		var rtes, wpts []piece
		for i, l := range ls {
			t, e := asTracks(l)
			rtes = append(rtes, piece{fmt.Sprintf("rte[%d]", i), "<rte><name>r</name>" + ptsDoc("rtept", l, i%4) + "</rte>", shape{tracks: t, err: e}})
			if len(l) > 0 {
				wpts = append(wpts, piece{fmt.Sprintf("wpt[%d]", i), ptsDoc("wpt", l, (i+1)%4), shape{tracks: t, err: e}})
			}
		}
		// documents of the fewest bytes
		for i, two := range [][]geo.LatLonPoint{{ll(1, 2), ll(1, 3)}, {ll(0, 0), ll(0, 1)}, {ll(-1, 0), ll(5, 5), ll(-1, 0)}} {
			t, _ := asTracks(two)
			for k, body := range []string{ptsDoc("wpt", two, 1), "<rte>" + ptsDoc("rtept", two, 1) + "</rte>", "<trk><trkseg>" + ptsDoc("trkpt", two, 1) + "</trkseg></trk>"} {
				run(fmt.Sprintf("shortest %d %d", i, k), "<gpx>"+body+"</gpx>", []shape{{tracks: t}})
			}
		}
		meta := [...]string{"", "<metadata><name>m</name><bounds minlat=\"1\" minlon=\"2\" maxlat=\"3\" maxlon=\"4\"/></metadata>"}
		for _, t := range trks {
			run(t.n, gpxDoc("1.1", t.doc), []shape{t.want})
			run("1.0 "+t.n, gpxDoc("1.0", t.doc), []shape{t.want})
		}
		// lists of tracks, alone and with the other kinds
		var few []piece
		for i, t := range trks {
			if i < 9 || i%17 == 0 {
				few = append(few, t)
			}
		}
		var lists func(ps []piece, from []piece, max int, f func([]piece))
		lists = func(ps, from []piece, max int, f func([]piece)) {
			f(ps)
			if len(ps) == max {
				return
			}
			for _, p := range from {
				lists(append(append([]piece(nil), ps...), p), from, max, f)
			}
		}
		join := func(ps []piece) (nm, doc string, want []shape) {
			for _, p := range ps {
				nm, doc, want = nm+" "+p.n, doc+p.doc, append(want, p.want)
			}
			return
		}
		for _, v := range []string{"1.1", "1.0"} {
			lists(nil, few, perDoc, func(ps []piece) {
				nm, doc, want := join(ps)
				run(v+" tracks"+nm, gpxDoc(v, doc), want)
				if len(ps) == 0 || len(ps) > 2 || v == "1.0" {
					return
				}
				for i, r := range rtes { // tracks go before routes and waypoints
					if r.want.err {
						continue
					}
					w := wpts[i%len(wpts)]
					run(v+" tracks"+nm+" beside "+r.n+" "+w.n, gpxDoc(v, meta[1]+w.doc+r.doc+doc), want)
					run(v+" tracks"+nm+" beside "+w.n, gpxDoc(v, w.doc+doc), want)
				}
			})
			lists(nil, rtes, perDoc, func(ps []piece) {
				nm, doc, want := join(ps)
				run(v+" routes"+nm, gpxDoc(v, doc), want)
				if len(ps) > 0 && len(ps) <= 2 {
					for _, w := range wpts {
						run(v+" routes"+nm+" beside "+w.n, gpxDoc(v, w.doc+doc), want)
					}
				}
			})
			for _, w := range wpts {
				for _, m := range meta {
					if v == "1.0" && m != "" {
						continue
					}
					run(v+" waypoints "+w.n+m, gpxDoc(v, m+w.doc), []shape{w.want})
					run(v+" waypoints "+w.n+m+" and extensions", gpxDoc(v, m+w.doc+"<extensions><other a=\"b\">c</other></extensions>"), []shape{w.want})
				}
			}
		}
		bad := []shape{{err: true}}
		ok := trks[1+3]
		for _, d := range []string{"", " ", "x", "{}", "<", "<gpx>", "<kml></kml>", gpxDoc("1.1", "<trk>"), gpxDoc("1.1", ok.doc)[:120], gpxDoc("1.1", "<trk><trkseg><trkpt lat=\"x\" lon=\"1\"/><trkpt lat=\"2\" lon=\"1\"/></trkseg></trk>"),
			gpxDoc("1.1", "<trk><trkseg></trk></trkseg>")} {
			run("document "+clip(d, 120), d, bad)
		}
		run("with a byte order mark", "\ufeff"+gpxDoc("1.1", trks[3].doc), []shape{trks[3].want})
		run("with a prefix of its namespace", strings.NewReplacer("<trk", "<g:trk", "</trk", "</g:trk", "<gpx xmlns", "<g:gpx xmlns:g", "</gpx", "</g:gpx").Replace(gpxDoc("1.1", "<trk><trkseg>"+ptsDoc("trkpt", ls[3], 0)+"</trkseg></trk>")), []shape{{tracks: [][]geo.LatLonPoint{ls[3]}}})
		j.Sample(fmt.Sprintf("%d tracks, lists of up to %d of %d", len(trks), perDoc, len(few)))
	}}
}

var (
	reTrackNode = regexp.MustCompile(`(?s)<track [^>]*>[^<]*</track>`)
	reRouteNode = regexp.MustCompile(`(?s)<route [^>]*>.*?</route>`)
	reSeg       = regexp.MustCompile(`(?s)<trkseg>.*?</trkseg>`)
	reTrk       = regexp.MustCompile(`(?s)<trk>.*?</trk>`)
	rePt        = regexp.MustCompile(`(?s)<trkpt [^>]*></trkpt>`)
	reGpsgen    = regexp.MustCompile(`(?s)<gpsgen>.*</gpsgen>`)
	reRouteID   = regexp.MustCompile(`(<route [^>]*?)id="[^"]*"`)
	reTrackID   = regexp.MustCompile(`(<track [^>]*>)[^<]*(</track>)`)
)

// nthReplaced replaces the k-th match of re.
func nthReplaced(doc string, re *regexp.Regexp, k int, repl func(string) string) (string, bool) {
	n, hit := -1, false
	out := re.ReplaceAllStringFunc(doc, func(m string) string {
		n++
		if n == k {
			hit = true
			return repl(m)
		}
		return m
	})
	return out, hit
}

// gpxMetadataJob alters exported documents so that their metadata and tracks
// no longer fit together.
func gpxMetadataJob(name string, lists [][]int) Job {
	return Job{Name: name, Variant: Plain, Run: func(j *J) {
		for _, lens := range lists {
			resetWorld()
			var rs []*navigator.Route
			total := 0
			for i, n := range lens {
				r := route()
				for k := 0; k < n; k++ {
					r.AddTrack(lineTrack(float64(k+10*i), 2, 5, 6))
				}
				total += n
				rs = append(rs, r)
			}
			b, err := gpsgen.EncodeGPXRoutes(rs)
			must(err)
			doc := string(b)
			try := func(cs, d string, ok bool) {
				if !j.Want(cs) {
					return
				}
				j.Case(cs)
				j.Eval()
				j.State()
				j.Distinct(d)
				j.Protect(name+"/panic", cs, func() {
					got, err := gpsgen.DecodeGPXRoutes([]byte(d))
					if (err == nil) != ok {
						j.Fail(name+"/inconsistent", cs, "%s: %d routes, error %v\n%s", cs, len(got), err, clip(d, 2500))
					}
					if ok && err == nil {
						if m := exchanged(rs, got, 1e-9); m != "" {
							j.Fail(name+"/kept", cs, "%s: %s\n%s", cs, m, clip(d, 2500))
						}
					}
					j.Transition()
				})
			}
			head := fmt.Sprintf("routes of %v tracks: ", lens)
			none := func(string) string { return "" }
			twice := func(s string) string { return s + s }
			try(head+"unchanged", doc, true)
			try(head+"unindented", regexp.MustCompile(`>\s+<`).ReplaceAllString(doc, "><"), true)
			for k := 0; k < total; k++ {
				for _, e := range []struct {
					n  string
					re *regexp.Regexp
					f  func(string) string
				}{
					{"track record removed", reTrackNode, none}, {"track record doubled", reTrackNode, twice},
					{"segment removed", reSeg, none}, {"segment doubled", reSeg, twice},
					{"segment without points", reSeg, func(string) string { return "<trkseg></trkseg>" }},
					{"segment of one point", reSeg, func(s string) string { return "<trkseg>" + rePt.FindString(s) + "</trkseg>" }},
					{"track record without id", reTrackID, func(s string) string { return reTrackID.ReplaceAllString(s, "$1$2") }},
				} {
					if d, hit := nthReplaced(doc, e.re, k, e.f); hit {
						try(fmt.Sprintf("%s%s %d", head, e.n, k), d, false)
					} else {
						j.Fail(name+"/shape", head, "%s: no %s %d to alter in\n%s", head, e.n, k, clip(doc, 2000))
					}
				}
			}
			for k := range lens {
				for _, e := range []struct {
					n  string
					re *regexp.Regexp
					f  func(string) string
				}{
					{"route record removed", reRouteNode, none}, {"route record doubled", reRouteNode, twice},
					{"track removed", reTrk, none}, {"track doubled", reTrk, twice},
					{"route record without id", reRouteNode, func(s string) string { return reRouteID.ReplaceAllString(s, "$1") }},
					{"route record without tracks", reRouteNode, func(s string) string { return s[:strings.Index(s, ">")+1] + "</route>" }},
				} {
					if d, hit := nthReplaced(doc, e.re, k, e.f); hit {
						try(fmt.Sprintf("%s%s %d", head, e.n, k), d, false)
					}
				}
			}
			d, _ := nthReplaced(doc, reGpsgen, 0, func(string) string { return "<gpsgen></gpsgen>" })
			try(head+"no records", d, false)
			// without the metadata it is a foreign document
			d, _ = nthReplaced(doc, reGpsgen, 0, none)
			cs := head + "metadata removed"
			if j.Want(cs) {
				got, err := gpsgen.DecodeGPXRoutes([]byte(d))
				var want []shape
				for _, r := range rs {
					s := shape{}
					for k := 0; k < r.NumTracks(); k++ {
						s.tracks = append(s.tracks, trackPoints(r.TrackAt(k)))
					}
					want = append(want, s)
				}
				judgeForeign(j, name, cs, d, want, nil, got, err)
			}
		}
		j.Sample("every single alteration of exported documents")
	}}
}

func init() {
	register(&Check{ID: "C16", Level: "exploration",
		Rule:        "a case is one list of routes exported, imported, compared, exported and imported again; or one foreign document of an enumerated grammar of tracks, routes and waypoints compared with a reference reading; or one alteration of the metadata of an exported document",
		Assumptions: []string{"string properties that do not read as number or truth value, under keys that are XML attribute names and not reserved", "names of characters XML can carry, ids without surrounding blanks", "finite coordinates, compared to ten decimals"},
		Jobs: func(tier string) []Job {
			c := gpxCodec()
			metas := [][]int{{1}, {2}, {1, 1}, {2, 1}, {1, 2}}
			if tier == "thorough" {
				metas = append(metas, []int{3}, []int{3, 2, 1}, []int{1, 1, 1, 1}, []int{2, 3})
			}
			return []Job{
				eachRouteList("C16 route lists", pick(tier, 4, 5), pick(tier, 3, 4), jsonValues, judgeExchange("C16 route lists", c), nil),
				coordinatesJob("C16 coordinates", c),
				namesJob("C16 texts", c),
				idsJob("C16 ids", c),
				keysJob("C16 keys", c, "ключ", "a.b", "a-b"),
				foreignGPXJob("C16 foreign", 3, pick(tier, 2, 3)),
				gpxMetadataJob("C16 metadata", metas),
				largeListsJob("C16 large lists", tier, judgeExchange("C16 large lists", c)),
			}
		}})
}
