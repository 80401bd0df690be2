package harness

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// ---- what is done with whatever a decoder accepted ----

func useDevice(d *gpsgen.Device, long bool) {
	look := func() {
		_ = view(d)
		_ = d.CurrentBearing()
		_ = d.Status()
		_, _ = proto.Marshal(d.State())
		_ = d.Snapshot()
		d.EachRoute(func(_ int, r *navigator.Route) bool { _ = r.Snapshot(); return true })
		d.EachSensor(func(_ int, s *types.Sensor) bool { _ = s.String(); return true })
		for i := -1; i <= d.NumRoutes(); i++ {
			_ = d.RouteAt(i)
		}
		for i := -1; i <= d.NumSensors(); i++ {
			_ = d.SensorAt(i)
		}
	}
	again := func() {
		if b, err := gpsgen.EncodeTracker(d); err == nil {
			if r, err := gpsgen.DecodeTracker(b); err == nil {
				r.Next(1)
				_ = r.State()
			}
		}
	}
	look()
	again()
	for _, t := range []float64{1, 0, 0.5, 3600} {
		d.Next(t)
		_ = d.State()
	}
	look()
	nr := d.NumRoutes()
	for i := -1; i <= nr; i++ {
		d.MoveToRoute(i)
		d.Next(1)
		nt := 0
		var r *navigator.Route
		if i >= 0 && i < nr {
			r = d.RouteAt(i)
			nt = r.NumTracks()
			d.MoveToRouteByID(r.ID())
		}
		for k := -1; k <= nt; k++ {
			d.MoveToTrack(i, k)
			d.Next(1)
			ns := 0
			if r != nil && k >= 0 && k < nt {
				ns = r.TrackAt(k).NumSegments()
				d.MoveToTrackByID(r.ID(), r.TrackAt(k).ID())
			}
			for s := -1; s <= ns; s++ {
				d.MoveToSegment(i, k, s)
				d.Next(1)
				_ = d.CurrentSegment()
			}
		}
	}
	for _, f := range []float64{0, 1, 10, 1e9, math.Inf(1), math.NaN()} {
		d.DestinationTo(f)
		d.Next(1)
	}
	d.ToNextRoute()
	d.ToPrevRoute()
	d.Next(2)
	d.ToOffline()
	for i := 0; i < 3; i++ {
		d.Next(2)
	}
	d.Update()
	look()
	again()
	if !long {
		return
	}
	d.AddSensor(mkSensor(1))
	_ = d.AddRoute(route(lineTrack(1, 2, 3, 4)))
	for _, s := range d.Sensors() {
		s.Shuffle()
		d.SensorByID(s.ID())
	}
	for i := 0; i < 5; i++ {
		d.Next(1e6)
	}
	for nr := d.NumRoutes(); nr > 0; nr-- {
		r := d.RouteAt(0)
		if r.NumTracks() > 0 {
			d.RemoveTrack(r.ID(), r.TrackAt(0).ID())
		}
		d.Next(1)
		d.RemoveRoute(r.ID())
		d.Next(1)
	}
	for _, s := range d.Sensors() {
		d.RemoveSensor(s.ID())
	}
	d.ResetSensors()
	d.ResetRoutes()
	d.ResetNavigator()
	d.Next(1)
	look()
}

func useRoutes(rs []*navigator.Route, long bool) {
	for _, enc := range []func([]*navigator.Route) ([]byte, error){gpsgen.EncodeRoutes, gpsgen.EncodeGeoJSONRoutes, gpsgen.EncodeGPXRoutes} {
		_, _ = enc(rs)
	}
	d := newDev("user", static(1))
	_ = d.AddRoute(rs...)
	useDevice(d, false)
	if !long {
		return
	}
	for _, r := range rs {
		_ = r.Name().String()
		_ = r.ChangeName("other")
		_ = r.Props()
		r.EachTrack(func(i int, t *navigator.Track) bool {
			for k := -1; k <= t.NumSegments(); k++ {
				_ = t.SegmentAt(k)
			}
			_ = t.Props()
			_ = t.ChangeName("x")
			_ = t.ChangeColor("#ff0000")
			_, _ = r.TrackByID(t.ID())
			return true
		})
		r.AddTrack(lineTrack(1, 1, 2))
		for r.NumTracks() > 0 {
			n := r.NumTracks()
			r.RemoveTrack(r.TrackAt(0).ID())
			if r.NumTracks() == n {
				break
			}
			d.Next(1)
		}
	}
}

func useSensors(ss []*types.Sensor, long bool) {
	if b, err := gpsgen.EncodeSensors(ss); err == nil {
		_, _ = gpsgen.DecodeSensors(b)
	}
	for _, s := range ss {
		for _, t := range []float64{0, 0.5, 1, -1, 7, math.Inf(1), math.NaN()} {
			s.Next(t)
		}
		_ = s.String() + s.Name() + s.ID()
		s.Shuffle()
		s.Next(0.3)
	}
	d := newDev("user", static(1))
	_ = d.AddRoute(route(lineTrack(1, 2, 3, 4)))
	d.AddSensor(ss...)
	useDevice(d, long)
}

// ---- the decoders ----

type decoder struct {
	name string
	// run decodes and uses what was accepted; ok tells whether it was
	run func(b []byte, long bool) (ok bool)
	msg func() proto.Message
}

func decoders() map[string]decoder {
	return map[string]decoder{
		"tracker": {"tracker", func(b []byte, long bool) bool {
			d, err := gpsgen.DecodeTracker(b)
			if err != nil {
				if d != nil {
					panic("a tracker beside an error")
				}
				return false
			}
			useDevice(d, long)
			return true
		}, func() proto.Message { return new(pb.Snapshot) }},
		"routes": {"routes", func(b []byte, long bool) bool {
			rs, err := gpsgen.DecodeRoutes(b)
			if err != nil {
				return false
			}
			useRoutes(rs, long)
			return true
		}, func() proto.Message { return new(pb.Snapshot_Navigator_Routes) }},
		"sensors": {"sensors", func(b []byte, long bool) bool {
			ss, err := gpsgen.DecodeSensors(b)
			if err != nil {
				return false
			}
			useSensors(ss, long)
			return true
		}, func() proto.Message { return new(pb.Snapshot_Sensors) }},
		"packet": {"packet", func(b []byte, long bool) bool {
			p, err := gpsgen.PacketFromBytes(b)
			if err != nil {
				return false
			}
			for _, d := range p.Devices {
				_ = d.GetLocation().GetUtm().GetEasting()
				_ = d.GetRoutes().GetRoutes()
			}
			_, _ = proto.Marshal(p)
			return true
		}, func() proto.Message { return new(pb.Packet) }},
		"GeoJSON": {"GeoJSON", func(b []byte, long bool) bool {
			rs, err := gpsgen.DecodeGeoJSONRoutes(b)
			if err != nil {
				return false
			}
			useRoutes(rs, long)
			return true
		}, nil},
		"GPX": {"GPX", func(b []byte, long bool) bool {
			rs, err := gpsgen.DecodeGPXRoutes(b)
			if err != nil {
				return false
			}
			useRoutes(rs, long)
			return true
		}, nil},
	}
}

// subject documents: small but with every part present.
func faultFixture(kind string) []byte {
	resetWorld()
	r1 := route(lineTrack(10, 20, 3, 4), lineTrack(11, 20, 5))
	must(r1.ChangeName("first"))
	r1.Props().Set("k", "v")
	r1.TrackAt(0).Props().Set("n", "w")
	must(r1.TrackAt(0).ChangeName("track"))
	r2 := route(lineTrack(-12, 20, 6))
	var b []byte
	var err error
	switch kind {
	case "tracker":
		d := newDev("subject", offline(2, 5), func(o *gpsgen.DeviceOptions) { o.Speed.Min, o.Speed.Max, o.Descr, o.UserID = 1, 3, "d", "u" })
		must(d.AddRoute(r1, r2))
		d.AddSensor(mkSensor(0))
		d.Next(1)
		d.Next(2)
		b, err = gpsgen.EncodeTracker(d)
	case "routes":
		b, err = gpsgen.EncodeRoutes([]*navigator.Route{r1, r2})
	case "sensors":
		b, err = gpsgen.EncodeSensors([]*types.Sensor{mkSensor(0), mkSensor(2)})
	case "packet":
		d := newDev("subject", skipOff, static(1))
		must(d.AddRoute(r1))
		d.AddSensor(mkSensor(0))
		d.Next(1)
		b, err = proto.Marshal(&pb.Packet{Devices: []*pb.Device{d.State(), d.State()}, Timestamp: 5})
	case "GeoJSON":
		b, err = gpsgen.EncodeGeoJSONRoutes([]*navigator.Route{r1, r2})
	case "GPX":
		b, err = gpsgen.EncodeGPXRoutes([]*navigator.Route{r1, r2})
	}
	must(err)
	return b
}

// tryBytes gives the decoder one byte string and judges it.
type faultRun struct {
	j      *J
	d      decoder
	name   string
	n      int
	keep   *gpsgen.Device // tracker with a past that no failed restore may change
	before [3]string
	ok     int
	bad    int
}

func trackerPrint(d *gpsgen.Device) [3]string {
	return [3]string{view(d), canon(d.Snapshot()), canon(d.State())}
}

func (f *faultRun) try(cs string, b []byte, long bool) {
	f.n++
	if !f.j.Mine(f.n) || !f.j.Want(cs) {
		return
	}
	j := f.j
	j.Case(cs)
	j.Eval()
	j.State()
	j.Distinct(string(b))
	resetWorld()
	okay := false
	j.Protect(f.name+"/panic "+f.d.name, cs, func() { okay = f.d.run(b, long) })
	j.Transition()
	if okay {
		f.ok++
		j.Outcome(f.d.name + " accepted")
		return
	}
	f.bad++
	j.Outcome(f.d.name + " refused")
	if f.d.name != "tracker" {
		return
	}
	f.failedRestore(cs, func(d *gpsgen.Device) error { return d.UnmarshalBinary(b) }, long)
}

func (f *faultRun) failedRestore(cs string, restore func(d *gpsgen.Device) error, fresh bool) {
	j := f.j
	if f.keep == nil || fresh {
		f.keep = usedTracker(false)
		f.before = trackerPrint(f.keep)
	}
	var err error
	if !j.Protect(f.name+"/restore panic", cs, func() { err = restore(f.keep) }) {
		f.keep = nil
		return
	}
	if err == nil { // refused by DecodeTracker, accepted here: only the empty input may differ
		j.Fail(f.name+"/restore", cs, "DecodeTracker refuses this input, UnmarshalBinary accepts it")
		f.keep = nil
		return
	}
	f.unchanged(cs, fresh)
}

func (f *faultRun) unchanged(cs string, fresh bool) {
	j := f.j
	if now := trackerPrint(f.keep); now != f.before {
		for i := range now {
			if now[i] != f.before[i] {
				j.Fail(f.name+"/restore changed", cs, "a failed restore changed the tracker:\n%q\n%q", clip(f.before[i], 1200), clip(now[i], 1200))
				break
			}
		}
		f.keep = nil
		return
	}
	if fresh { // the future is unchanged, too: time owed, curves, offline period
		ref := usedTracker(false)
		for _, t := range []float64{1, 0.5, 30} {
			a, b := f.keep.Next(t), ref.Next(t)
			if x, y := trackerPrint(f.keep), trackerPrint(ref); a != b || x != y {
				j.Fail(f.name+"/restore continuation", cs, "after a failed restore Next(%v) gives %v, otherwise %v:\n%q\n%q", t, a, b, clip(x[0], 1000), clip(y[0], 1000))
				break
			}
		}
		f.keep = nil
	}
}

// ---- byte faults ----

func byteFaultsJob(kind string, all bool) Job {
	name := "C17 bytes " + kind
	return Job{Name: name, Variant: Plain, Shards: 8, Run: func(j *J) {
		f := &faultRun{j: j, d: decoders()[kind], name: name}
		doc := faultFixture(kind)
		f.try("unchanged", doc, true)
		if f.ok == 0 && j.Shard == 1%max(1, j.Shards) && j.Replay == "" {
			j.Fail(name+"/fixture", "unchanged", "the unchanged %s is refused", kind)
		}
		for i := range doc {
			f.try(fmt.Sprintf("cut after %d bytes", i), doc[:i], false)
			f.try(fmt.Sprintf("without the first %d bytes", i+1), doc[i+1:], false)
			f.try(fmt.Sprintf("without byte %d", i), cat(doc[:i], doc[i+1:]), false)
			if j.Expired(name) {
				return
			}
		}
		vals := func(b byte) []byte {
			if all {
				out := make([]byte, 0, 256)
				for v := 0; v < 256; v++ {
					out = append(out, byte(v))
				}
				return out
			}
			return []byte{0, 1, 0x7f, 0x80, 0xff, b + 1, b - 1, b ^ 0x80, b ^ 0x08, b ^ 0x20, ' ', '"', '<', '0', '-', '}'}
		}
		for i := range doc {
			done := map[byte]bool{doc[i]: true}
			for _, v := range vals(doc[i]) {
				if done[v] {
					continue
				}
				done[v] = true
				m := append([]byte(nil), doc...)
				m[i] = v
				f.try(fmt.Sprintf("byte %d = %d", i, v), m, false)
			}
			for _, v := range []byte{0, 0x0a, 0x80, 0xff, '"', '<'} {
				f.try(fmt.Sprintf("%d inserted at %d", v, i), cat(doc[:i], []byte{v}, doc[i:]), false)
			}
			if j.Expired(name) {
				return
			}
		}
		// every short input
		f.try("nothing", nil, true)
		top := 2
		for n := 1; n <= top; n++ {
			b := make([]byte, n)
			for k := 0; k < 1<<(8*n); k++ {
				for i := range b {
					b[i] = byte(k >> (8 * i))
				}
				f.try(fmt.Sprintf("bytes %x", b), append([]byte(nil), b...), false)
			}
		}
		j.Sample(fmt.Sprintf("%s: %d bytes, every cut, deletion, substitution and insertion; all inputs of up to %d bytes", kind, len(doc), top))
	}}
}

func cat(bs ...[]byte) (out []byte) {
	for _, b := range bs {
		out = append(out, b...)
	}
	return
}

// ---- structural faults of the binary formats ----

var oddInts = []int64{0, 1, -1, 2, 3, 1 << 20, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64}
var oddFloats = []float64{0, 1, -1, 0.5, 1e9, -1e9, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN()}
var oddBytes = []string{"", "null", "{}", "[]", "{", `{"a":null}`, `{"":{"b":[1]}}`, `"x"`, "\x00", `{"a":1}x`}
var oddTexts = []string{"", "x", strings.Repeat("long ", 200), "\u0000<&\"", "550e8400-e29b-41d4-a716-446655440000"}

type mutation struct {
	name string
	do   func()
	undo func()
}

// mutations of every part of the message, recursively. The message is altered
// and restored in place.
func mutations(prefix string, m protoreflect.Message) (out []mutation) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		nm := prefix + "." + string(fd.Name())
		switch {
		case fd.IsList():
			old := m.Get(fd).List()
			var els []protoreflect.Value
			for k := 0; k < old.Len(); k++ {
				els = append(els, old.Get(k))
			}
			set := func(vs ...protoreflect.Value) func() {
				return func() {
					l := m.NewField(fd).List()
					for _, v := range vs {
						l.Append(v)
					}
					m.Set(fd, protoreflect.ValueOfList(l))
				}
			}
			restore := set(els...)
			add := func(n string, vs ...protoreflect.Value) {
				out = append(out, mutation{nm + " " + n, set(vs...), restore})
			}
			blank := func() protoreflect.Value { return m.NewField(fd).List().NewElement() }
			if len(els) > 0 {
				out = append(out, mutation{nm + " cleared", func() { m.Clear(fd) }, restore})
				add("reversed", reversed(els)...)
			}
			add("with a blank element", append(append([]protoreflect.Value(nil), els...), blank())...)
			add("one blank element only", blank())
			for k := range els {
				add(fmt.Sprintf("without element %d", k), append(append([]protoreflect.Value(nil), els[:k]...), els[k+1:]...)...)
				add(fmt.Sprintf("element %d twice", k), append(append([]protoreflect.Value(nil), els[:k+1]...), els[k:]...)...)
				bl := append([]protoreflect.Value(nil), els...)
				bl[k] = blank()
				add(fmt.Sprintf("element %d blank", k), bl...)
				out = append(out, mutations(fmt.Sprintf("%s[%d]", nm, k), els[k].Message())...)
			}
		case fd.Message() != nil:
			if !m.Has(fd) {
				continue
			}
			sub := m.Get(fd)
			restore := func() { m.Set(fd, sub) }
			out = append(out, mutation{nm + " absent", func() { m.Clear(fd) }, restore})
			out = append(out, mutation{nm + " blank", func() { m.Set(fd, m.NewField(fd)) }, restore})
			out = append(out, mutations(nm, sub.Message())...)
		default:
			old := m.Get(fd)
			restore := func() { m.Set(fd, old) }
			var vs []protoreflect.Value
			switch fd.Kind() {
			case protoreflect.DoubleKind:
				for _, x := range oddFloats {
					vs = append(vs, protoreflect.ValueOfFloat64(x))
				}
			case protoreflect.Int64Kind:
				for _, x := range oddInts {
					vs = append(vs, protoreflect.ValueOfInt64(x))
				}
			case protoreflect.BoolKind:
				vs = []protoreflect.Value{protoreflect.ValueOfBool(!old.Bool())}
			case protoreflect.StringKind:
				for _, x := range oddTexts {
					vs = append(vs, protoreflect.ValueOfString(x))
				}
			case protoreflect.BytesKind:
				for _, x := range oddBytes {
					vs = append(vs, protoreflect.ValueOfBytes([]byte(x)))
				}
			default:
				panic("field of unknown kind " + nm)
			}
			for _, v := range vs {
				v := v
				if v.Equal(old) {
					continue
				}
				out = append(out, mutation{fmt.Sprintf("%s = %s", nm, clip(fmt.Sprint(v), 40)), func() { m.Set(fd, v) }, restore})
			}
		}
	}
	return out
}

func reversed(vs []protoreflect.Value) (out []protoreflect.Value) {
	for i := len(vs) - 1; i >= 0; i-- {
		out = append(out, vs[i])
	}
	return
}

var faultPairs = regexp.MustCompile(`absent|cleared|blank|without|_index|offline|= 0$|= -1$|NaN|\+Inf|e\+308`)

func protoFaultsJob(kind string, pairs bool) Job {
	name := "C17 structure " + kind
	if pairs {
		name += " pairs"
	}
	return Job{Name: name, Variant: Plain, Shards: 8, Run: func(j *J) {
		f := &faultRun{j: j, d: decoders()[kind], name: name}
		m := f.d.msg()
		must(proto.Unmarshal(faultFixture(kind), m))
		whole := canon(m)
		apply := func(cs string, long bool) {
			b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
			must(err)
			f.try(cs, b, long)
		}
		ms := mutations(kind, m.ProtoReflect())
		if !pairs {
			for _, mu := range ms {
				mu.do()
				apply(mu.name, true)
				mu.undo()
				if j.Expired(name) {
					return
				}
			}
		} else {
			var few []mutation
			for _, mu := range ms {
				if faultPairs.MatchString(mu.name) {
					few = append(few, mu)
				}
			}
			for i, a := range few {
				for _, b := range few[i+1:] {
					// b may lie inside the part a replaces: then it alters nothing, which is a case seen before
					a.do()
					b.do()
					apply(a.name+" and "+b.name, false)
					b.undo()
					a.undo()
				}
				if j.Expired(name) {
					return
				}
			}
		}
		if canon(m) != whole {
			panic("the subject was not restored")
		}
		j.Sample(fmt.Sprintf("%s: %d single mutations of the message tree", kind, len(ms)))
	}}
}

// snapshotFaultsJob restores from snapshot objects that lack parts, which
// bytes cannot express.
func snapshotFaultsJob() Job {
	name := "C17 snapshot objects"
	return Job{Name: name, Variant: Plain, Shards: 4, Run: func(j *J) {
		f := &faultRun{j: j, d: decoders()["tracker"], name: name}
		n := 0
		try := func(cs string, snap *pb.Snapshot) {
			n++
			if !j.Mine(n) || !j.Want(cs) {
				return
			}
			j.Case(cs)
			j.Eval()
			j.State()
			resetWorld()
			// a part missing from the object is as good as bytes without it
			accepted := false
			if snap != nil {
				if b, err := proto.Marshal(snap); err == nil && len(b) > 0 {
					j.Protect(name+"/panic", cs, func() {
						_, err := gpsgen.DecodeTracker(b)
						accepted = err == nil
					})
				}
			}
			f.keep = usedTracker(false)
			f.before = trackerPrint(f.keep)
			if !j.Protect(name+"/restore panic", cs, func() { f.keep.FromSnapshot(snap) }) {
				return
			}
			j.Transition()
			if !accepted {
				f.unchanged(cs, true)
				return
			}
			j.Protect(name+"/use", cs, func() { useDevice(f.keep, true) })
		}
		whole := new(pb.Snapshot)
		must(proto.Unmarshal(faultFixture("tracker"), whole))
		try("nil", nil)
		try("empty", new(pb.Snapshot))
		try("whole", whole)
		cl := func() *pb.Snapshot { return proto.Clone(whole).(*pb.Snapshot) }
		for i := range whole.Sensors {
			s := cl()
			s.Sensors[i] = nil
			try(fmt.Sprintf("sensor %d nil", i), s)
			for k := range whole.Sensors[i].Gen.Points {
				s := cl()
				s.Sensors[i].Gen.Points[k] = nil
				try(fmt.Sprintf("sensor %d point %d nil", i, k), s)
			}
		}
		for k := range whole.Speed.Gen.Points {
			s := cl()
			s.Speed.Gen.Points[k] = nil
			try(fmt.Sprintf("speed point %d nil", k), s)
		}
		for k := range whole.Navigator.Elevation.Gen.Points {
			s := cl()
			s.Navigator.Elevation.Gen.Points[k] = nil
			try(fmt.Sprintf("elevation point %d nil", k), s)
		}
		for i := range whole.Navigator.Routes {
			s := cl()
			s.Navigator.Routes[i] = nil
			try(fmt.Sprintf("route %d nil", i), s)
			for k := range whole.Navigator.Routes[i].Tracks {
				s := cl()
				s.Navigator.Routes[i].Tracks[k] = nil
				try(fmt.Sprintf("track %d %d nil", i, k), s)
				for q := range whole.Navigator.Routes[i].Tracks[k].Segmenets {
					s := cl()
					s.Navigator.Routes[i].Tracks[k].Segmenets[q] = nil
					try(fmt.Sprintf("segment %d %d %d nil", i, k, q), s)
				}
			}
		}
		for _, mu := range mutations("snapshot", whole.ProtoReflect()) {
			mu.do()
			try(mu.name, proto.Clone(whole).(*pb.Snapshot))
			mu.undo()
		}
		// an empty encoding of an existing tracker
		for _, b := range [][]byte{nil, {}} {
			cs := fmt.Sprintf("UnmarshalBinary(%#v)", b)
			f.failedRestore(cs, func(d *gpsgen.Device) error { return d.UnmarshalBinary(b) }, true)
		}
	}}
}

// ---- structural faults of GeoJSON ----

var oddJSON = []string{`null`, `true`, `0`, `-1`, `1e308`, `""`, `"x"`, `[]`, `{}`, `[null]`, `[[]]`, `[{}]`, `{"a":1}`, `[1,2]`, `[[1,2],[3,4]]`, `[[1,2],null]`, `"LineString"`, `"Point"`, `"MultiLineString"`, `"Polygon"`, `"MultiPoint"`, `"GeometryCollection"`, `"Feature"`, `"FeatureCollection"`}

// jsonFaults gives every document that differs from v in one node.
func jsonFaults(path string, v interface{}, f func(cs string, v interface{})) {
	for _, o := range oddJSON {
		f(path+" = "+o, json.RawMessage(o))
	}
	switch x := v.(type) {
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		with := func(k string, nv interface{}, drop bool) map[string]interface{} {
			m := map[string]interface{}{}
			for q, w := range x {
				m[q] = w
			}
			m[k] = nv
			if drop {
				delete(m, k)
			}
			return m
		}
		for _, k := range ks {
			f(path+"."+k+" removed", with(k, nil, true))
			m := with(k, nil, true)
			m[k+"x"] = x[k]
			f(path+"."+k+" renamed", m)
			jsonFaults(path+"."+k, x[k], func(cs string, nv interface{}) { f(cs, with(k, nv, false)) })
		}
	case []interface{}:
		for i := range x {
			f(fmt.Sprintf("%s[%d] removed", path, i), append(append([]interface{}{}, x[:i]...), x[i+1:]...))
			f(fmt.Sprintf("%s[%d] doubled", path, i), append(append([]interface{}{}, x[:i+1]...), x[i:]...))
			jsonFaults(fmt.Sprintf("%s[%d]", path, i), x[i], func(cs string, nv interface{}) {
				l := append([]interface{}{}, x...)
				l[i] = nv
				f(cs, l)
			})
		}
		r := make([]interface{}, 0, len(x))
		for i := len(x) - 1; i >= 0; i-- {
			r = append(r, x[i])
		}
		f(path+" reversed", r)
	}
}

func foreignJSON() []string {
	var out []string
	geoms := []string{
		`{"type":"LineString","coordinates":[[1,2],[3,4],[5,6]]}`,
		`{"type":"MultiLineString","coordinates":[[[1,2],[3,4]],[[5,6],[7,8]]]}`,
		`{"type":"Polygon","coordinates":[[[1,2],[3,4],[5,2],[1,2]],[[2,2],[3,3],[4,2],[2,2]]]}`,
		`{"type":"MultiPolygon","coordinates":[[[[1,2],[3,4],[5,2],[1,2]]],[[[2,2],[3,3],[4,2],[2,2]]]]}`,
		`{"type":"Point","coordinates":[1,2]}`,
		`{"type":"MultiPoint","coordinates":[[1,2],[3,4]]}`,
		`{"type":"GeometryCollection","geometries":[{"type":"LineString","coordinates":[[1,2],[3,4]]},{"type":"Point","coordinates":[1,2]}]}`,
	}
	for _, g := range geoms {
		out = append(out, g, `{"type":"Feature","properties":{"a":"b"},"geometry":`+g+`}`,
			`{"type":"FeatureCollection","features":[{"type":"Feature","properties":{},"geometry":`+g+`}]}`)
	}
	out = append(out, `{"type":"FeatureCollection","features":[{"type":"Feature","geometry":`+geoms[0]+`},{"type":"Feature","properties":null,"geometry":`+geoms[2]+`}]}`)
	return out
}

func geoJSONFaultsJob(pairs bool) Job {
	name := "C17 structure GeoJSON"
	if pairs {
		name += " pairs"
	}
	return Job{Name: name, Variant: Plain, Shards: 8, Run: func(j *J) {
		f := &faultRun{j: j, d: decoders()["GeoJSON"], name: name}
		docs := append([]string{string(faultFixture("GeoJSON"))}, foreignJSON()...)
		if pairs {
			resetWorld()
			r := route(lineTrack(1, 2, 3))
			b, err := gpsgen.EncodeGeoJSONRoutes([]*navigator.Route{r})
			must(err)
			docs = append([]string{string(b)}, foreignJSON()...)
		}
		for i, doc := range docs {
			var v interface{}
			must(json.Unmarshal([]byte(doc), &v))
			jsonFaults(fmt.Sprintf("doc%d", i), v, func(cs string, nv interface{}) {
				b, err := json.Marshal(nv)
				must(err)
				if !pairs {
					f.try(cs, b, true)
					return
				}
				if j.Expired(name) {
					return
				}
				var w interface{}
				if json.Unmarshal(b, &w) != nil {
					return
				}
				jsonFaults("", w, func(cs2 string, nv2 interface{}) {
					b2, err := json.Marshal(nv2)
					must(err)
					f.try(cs+" and "+cs2, b2, false)
				})
			})
		}
		j.Sample(fmt.Sprintf("%d documents, every node replaced, removed, renamed or doubled", len(docs)))
	}}
}

// ---- structural faults of GPX ----

type xmlTok struct {
	raw  string
	open int // index of the closing token
	kind byte
}

var reXML = regexp.MustCompile(`(?s)<[^>]*>|[^<]+`)
var reAttr = regexp.MustCompile(`([A-Za-z:_-]+)="([^"]*)"`)

var oddXML = []string{"", "x", "0", "-1", "1e308", "NaN", "Inf", "91", "999999999999999999999999", "&lt;", " ", "true"}

func xmlFaults(doc string, f func(cs, d string)) {
	var ts []string
	ts = reXML.FindAllString(doc, -1)
	join := func(from, to int, mid string) string {
		return strings.Join(ts[:from], "") + mid + strings.Join(ts[to:], "")
	}
	end := map[int]int{}
	var stack []int
	for i, t := range ts {
		switch {
		case strings.HasPrefix(t, "<?"), strings.HasPrefix(t, "<!"), !strings.HasPrefix(t, "<"):
		case strings.HasPrefix(t, "</"):
			end[stack[len(stack)-1]] = i
			stack = stack[:len(stack)-1]
		case strings.HasSuffix(t, "/>"):
			end[i] = i
		default:
			stack = append(stack, i)
		}
	}
	for i, t := range ts {
		id := fmt.Sprintf("token %d %s", i, clip(t, 30))
		f(id+" removed", join(i, i+1, ""))
		f(id+" doubled", join(i, i, t))
		if e, ok := end[i]; ok {
			whole := strings.Join(ts[i:e+1], "")
			f(id+" element removed", join(i, e+1, ""))
			f(id+" element doubled", join(i, i, whole))
			if e > i {
				f(id+" element emptied", join(i+1, e, ""))
				f(id+" element with text", join(i+1, e, "text"))
			}
			for _, m := range reAttr.FindAllStringSubmatchIndex(t, -1) {
				f(fmt.Sprintf("%s attribute %s removed", id, t[m[2]:m[3]]), join(i, i+1, t[:m[0]]+t[m[1]:]))
				for _, o := range oddXML {
					f(fmt.Sprintf("%s attribute %s = %q", id, t[m[2]:m[3]], o), join(i, i+1, t[:m[4]]+o+t[m[5]:]))
				}
			}
		} else if !strings.HasPrefix(t, "<") && strings.TrimSpace(t) != "" {
			for _, o := range oddXML {
				f(fmt.Sprintf("%s = %q", id, o), join(i, i+1, o))
			}
		}
	}
}

func gpxFaultsJob(pairs bool) Job {
	name := "C17 structure GPX"
	if pairs {
		name += " pairs"
	}
	return Job{Name: name, Variant: Plain, Shards: 8, Run: func(j *J) {
		f := &faultRun{j: j, d: decoders()["GPX"], name: name}
		ls := lines()
		l := ls[len(ls)-1]
		docs := []string{
			gpxDoc("1.1", "<metadata><name>m</name><bounds minlat=\"1\" minlon=\"2\" maxlat=\"3\" maxlon=\"4\"/></metadata><trk><name>n</name><number>3</number><link href=\"u\"><text>t</text></link><trkseg>"+ptsDoc("trkpt", l, 3)+"</trkseg></trk>"),
			gpxDoc("1.0", "<time>2020-01-02T03:04:05Z</time><rte><name>n</name>"+ptsDoc("rtept", l, 3)+"</rte>"),
			gpxDoc("1.1", ptsDoc("wpt", l, 3)+"<extensions><a b=\"c\">d</a></extensions>"),
		}
		if pairs {
			resetWorld()
			b, err := gpsgen.EncodeGPXRoutes([]*navigator.Route{route(lineTrack(1, 2, 3))})
			must(err)
			docs = append(docs, string(b))
		} else {
			docs = append(docs, string(faultFixture("GPX")))
		}
		for i, doc := range docs {
			xmlFaults(doc, func(cs, d string) {
				cs = fmt.Sprintf("doc%d %s", i, cs)
				if !pairs {
					f.try(cs, []byte(d), true)
					return
				}
				if j.Expired(name) {
					return
				}
				ok := true
				func() {
					defer func() {
						if recover() != nil {
							ok = false // no longer balanced: single faults of such documents are covered
						}
					}()
					xmlFaults(d, func(string, string) {})
				}()
				if ok {
					xmlFaults(d, func(cs2, d2 string) { f.try(cs+" and "+cs2, []byte(d2), false) })
				}
			})
		}
		j.Sample(strconv.Itoa(len(docs)) + " documents, every token, element, attribute and text removed, doubled or replaced")
	}}
}

// ---- nesting ----

func nestingJob(depths []int) Job {
	name := "C17 nesting"
	return Job{Name: name, Variant: Plain, Shards: 4, Run: func(j *J) {
		for _, kind := range []string{"GeoJSON", "GPX", "tracker", "routes"} {
			f := &faultRun{j: j, d: decoders()[kind], name: name}
			for _, n := range depths {
				nest := func(open, mid, clos string) string {
					return strings.Repeat(open, n) + mid + strings.Repeat(clos, n)
				}
				var docs []string
				switch kind {
				case "GeoJSON":
					geo := func(g string) string {
						return `{"type":"FeatureCollection","features":[{"type":"Feature","properties":{},"geometry":` + g + `}]}`
					}
					docs = []string{nest("[", "", "]"), nest(`{"a":`, "1", "}"), nest(`{"features":[`, "", "]}"),
						geo(`{"type":"LineString","coordinates":` + nest("[", "1", "]") + `}`),
						geo(`{"type":"MultiPolygon","coordinates":` + nest("[", "", "]") + `}`),
						`{"type":"FeatureCollection","features":[{"type":"Feature","properties":{"a":` + nest("[", "1", "]") + `},"geometry":{"type":"LineString","coordinates":[[1,2],[3,4]]}}]}`,
						strings.Repeat("[", n), strings.Repeat(`{"features":[{"geometry":`, n)}
					if n <= 1000 { // each level is parsed again for every level above it
						docs = append(docs, geo(nest(`{"type":"GeometryCollection","geometries":[`, `{"type":"LineString","coordinates":[[1,2],[3,4]]}`, "]}")))
					}
				case "GPX":
					docs = []string{gpxDoc("1.1", nest("<extensions>", "", "</extensions>")), gpxDoc("1.1", nest("<trk>", "", "</trk>")),
						gpxDoc("1.1", nest("<trk><trkseg>", "", "</trkseg></trk>")), nest("<gpx>", "", "</gpx>"), gpxDoc("1.0", nest("<a>", "x", "</a>")),
						gpxDoc("1.1", strings.Repeat("<trk>", n)), gpxDoc("1.1", strings.Repeat("<trk/>", min(n, 1000))), gpxDoc("1.1", strings.Repeat("&lt;", n))}
				default: // length prefixes within length prefixes, groups within groups
					docs = []string{strings.Repeat("\x0a\x7f", n), strings.Repeat("\x4a\x7f", n), strings.Repeat("\x0b", n), strings.Repeat("\x0b", n) + strings.Repeat("\x0c", n),
						strings.Repeat("\xff", n), strings.Repeat("\x0a\x00", min(n, 1000)), strings.Repeat("\x22\x00", min(n, 1000))}
				}
				for i, d := range docs {
					f.try(fmt.Sprintf("%s nesting %d document %d", kind, n, i), []byte(d), false)
				}
			}
		}
	}}
}

func init() {
	register(&Check{ID: "C17", Level: "fault_enumeration",
		Rule:        "a case is one altered encoding given to one decoder: every cut, byte deletion, substitution and insertion of a fixture with every part present, every input of up to two bytes, every single alteration (thorough: pairs) of the message tree, JSON tree or XML token list; what is accepted is stepped, listed, moved, edited and encoded again; what is refused is also tried on a tracker with a past, which must not change, nor its continuation",
		Assumptions: []string{"a decoder hangs when it takes more than 30 s", "random draws fixed"},
		Jobs: func(tier string) []Job {
			th := tier == "thorough"
			var out []Job
			for _, k := range []string{"tracker", "routes", "sensors", "packet", "GeoJSON", "GPX"} {
				out = append(out, byteFaultsJob(k, th))
			}
			for _, k := range []string{"tracker", "routes", "sensors", "packet"} {
				out = append(out, protoFaultsJob(k, false))
			}
			out = append(out, snapshotFaultsJob(), geoJSONFaultsJob(false), gpxFaultsJob(false))
			depths := []int{1, 2, 3, 4, 5, 8, 16, 100, 1000, 9990, 9999, 10000, 10001, 20000}
			if th {
				depths = append(depths, 100000, 1000000)
			} else {
				out = append(out, protoFaultsJob("sensors", true))
			}
			out = append(out, nestingJob(depths))
			if th {
				for _, k := range []string{"tracker", "routes", "sensors"} {
					out = append(out, protoFaultsJob(k, true))
				}
				out = append(out, geoJSONFaultsJob(true), gpxFaultsJob(true))
			}
			return out
		}})
}
