package harness

import (
	"fmt"
	"sync"
	"time"

	"github.com/lucasb-eyer/go-colorful"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/vshim"
	"google.golang.org/protobuf/proto"
)

const (
	ptsRoot   = 1 << 0
	ptsDevice = 1 << 1
	ptsNav    = 1 << 2
	ptsTypes  = 1 << 3
	ptsRandom = 1 << 4
	ptsCurve  = 1 << 5
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func ll(lat, lon float64) geo.LatLonPoint { return geo.LatLonPoint{Lat: lat, Lon: lon} }

// meters north of a base point, along one meridian: lengths are exact enough
// to choose segment lengths freely.
const mDeg = 111194.92664455873 // metres per degree of latitude for the library's earth radius

func north(base geo.LatLonPoint, meters float64) geo.LatLonPoint {
	return ll(base.Lat+meters/mDeg, base.Lon)
}

// lineTrack is a track going north from (lat,lon) with the given segment lengths.
func lineTrack(lat, lon float64, lens ...float64) *navigator.Track {
	p := ll(lat, lon)
	pts := []geo.LatLonPoint{p}
	at := 0.0
	for _, l := range lens {
		at += l
		pts = append(pts, north(p, at))
	}
	t, err := navigator.NewTrack(pts)
	must(err)
	return t
}

func route(tracks ...*navigator.Track) *navigator.Route {
	r := navigator.NewRoute()
	for _, t := range tracks {
		r.AddTrack(t)
	}
	return r
}

// longRoute has one track with one 10 km segment.
func longRoute() *navigator.Route { return route(lineTrack(10.5, 20.5, 10000)) }

type devOptions = gpsgen.DeviceOptions
type devOpt func(*gpsgen.DeviceOptions)

func skipOff(o *gpsgen.DeviceOptions) { o.Navigator.SkipOffline = true }
func static(v float64) devOpt {
	return func(o *gpsgen.DeviceOptions) { o.Speed.Min, o.Speed.Max = v, v }
}
func offline(min, max int) devOpt {
	return func(o *gpsgen.DeviceOptions) { o.Navigator.Offline.Min, o.Navigator.Offline.Max = min, max }
}

func newDev(id string, opts ...devOpt) *gpsgen.Device {
	o := gpsgen.NewDeviceOptions()
	o.ID = id
	o.Model = "model-x"
	o.Color = "#112233"
	o.Navigator.Elevation.Min, o.Navigator.Elevation.Max, o.Navigator.Elevation.Amplitude = 0, 100, 4
	o.Speed.Amplitude = 4
	for _, f := range opts {
		f(o)
	}
	d, err := gpsgen.NewDevice(o)
	must(err)
	return d
}

func canon(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return "ERR " + err.Error() + fmt.Sprint(m)
	}
	return string(b)
}

// rec records what the generator hands out.
type rec struct {
	mu       sync.Mutex
	packets  [][]byte
	errs     []string
	nexts    int
	log      []string
	runDone  bool
	inNext   int
	problems []string
}

func (r *rec) lock()   { r.mu.Lock() }
func (r *rec) unlock() { r.mu.Unlock() }

func (r *rec) note(s string) {
	r.lock()
	r.log = append(r.log, s)
	r.unlock()
}
func (r *rec) problem(s string) {
	r.lock()
	r.problems = append(r.problems, s)
	r.unlock()
}
func (r *rec) packet(b []byte) {
	r.lock()
	if r.runDone {
		r.problems = append(r.problems, "packet callback after Run returned")
	}
	r.packets = append(r.packets, append([]byte(nil), b...))
	r.log = append(r.log, "packet")
	r.unlock()
}
func (r *rec) err(e error) {
	r.lock()
	if r.runDone {
		r.problems = append(r.problems, "error callback after Run returned")
	}
	r.errs = append(r.errs, e.Error())
	r.log = append(r.log, "error")
	r.unlock()
}
func (r *rec) next() {
	r.lock()
	if r.runDone {
		r.problems = append(r.problems, "next callback after Run returned")
	}
	r.nexts++
	r.log = append(r.log, "next")
	r.unlock()
}

// hook installs plain recording callbacks.
func (r *rec) hook(g *gpsgen.Generator) {
	g.OnPacket(r.packet)
	g.OnError(r.err)
	g.OnNext(r.next)
}

func (r *rec) run(g *gpsgen.Generator) func() {
	return func() {
		g.Run()
		r.lock()
		r.runDone = true
		r.unlock()
	}
}

// decode returns the records of all packets in arrival order.
func (r *rec) decode() (recs []*pb.Device, bad string) {
	for i, b := range r.packets {
		if len(b) == 0 {
			return recs, fmt.Sprintf("packet %d is empty", i)
		}
		p, err := gpsgen.PacketFromBytes(b)
		if err != nil {
			return recs, fmt.Sprintf("packet %d does not decode: %v", i, err)
		}
		for k, d := range p.Devices {
			if d == nil || d.Id == "" || d.Model == "" || d.Location == nil || d.Units == nil {
				return recs, fmt.Sprintf("packet %d has a blank record at %d: %v", i, k, d)
			}
			recs = append(recs, d)
		}
	}
	return recs, ""
}

func newGen(interval time.Duration, packet, workers int) *gpsgen.Generator {
	return gpsgen.New(&gpsgen.Options{Interval: interval, PacketSize: packet, NumWorkers: workers})
}

func sleep(d time.Duration) { time.Sleep(d) }

var _ = vshim.HP

func rgb(r, g, b float64) colorful.Color { return colorful.Color{R: r, G: g, B: b} }
