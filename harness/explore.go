package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/mmadfox/go-gpsgen/vshim"
)

func resetWorld() {
	vshim.SetConst(0.5)
	vshim.ResetUUID(0)
}

// Exec is one controlled execution of a scenario.
type Exec struct {
	S      *vshim.Sched
	Out    vshim.Outcome
	failed []struct{ key, msg string }
	Label  string // observable outcome, for outcome counting
	drove  bool
}

func (x *Exec) Spawn(name string, f func())     { x.S.Spawn(name, f) }
func (x *Exec) SpawnLazy(name string, f func()) { x.S.SpawnLazy(name, f) }

// Drive runs the schedule; problems with threads become failures.
func (x *Exec) Drive() bool {
	x.Out = x.S.Drive()
	x.drove = true
	o := x.Out
	switch {
	case o.Diverged != "":
		return false
	case o.Panic != "":
		x.Fail("panic", "%s", o.Panic)
		return false
	case o.Livelock:
		x.Fail("livelock", "no termination within the step horizon; unfinished: %v", o.Leaked)
		return false
	case o.Stuck:
		x.Fail("deadlock", "no thread can run, but these have not finished: %v", o.Leaked)
		return false
	case len(o.Leaked) > 0:
		x.Fail("goroutine-leak", "everything returned, but goroutines are left behind: %v", o.Leaked)
		return false
	}
	return true
}

func (x *Exec) Fail(key, format string, a ...interface{}) {
	x.failed = append(x.failed, struct{ key, msg string }{key, fmt.Sprintf(format, a...)})
}

// Scenario is a closed driver around the code under test.
type Scenario struct {
	Name  string
	Cfg   vshim.Config
	Bound int  // deviations from the default schedule
	Quiet bool // one of very many: no notes of its own
	Body  func(x *Exec)
}

func (sc *Scenario) defaults() {
	if sc.Cfg.Quantum == 0 {
		sc.Cfg.Quantum = 250 * time.Millisecond
	}
	if sc.Cfg.MaxIdle == 0 {
		sc.Cfg.MaxIdle = 40
	}
	if sc.Cfg.Horizon == 0 {
		sc.Cfg.Horizon = 60000
	}
}

type trace struct {
	choices []int
	ns      []int
	kinds   []byte
	sig     []uint64
	free    []bool // switching costs nothing (not used: every deviation costs 1)
	miss    bool
}

func runExec(t *testing.T, sc *Scenario, prefix []int) (x *Exec, tr trace, crash string) {
	resetWorld()
	x = &Exec{}
	done := make(chan struct{})
	go func() { // of its own: a race report ends the goroutine that runs the bubble
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				if strings.Contains(msg, "deadlock: main bubble goroutine has exited") {
					return // leftover goroutines, already reported through Outcome
				}
				crash = msg + "\n" + trimStack(debug.Stack())
			}
		}()
		synctest.Test(t, func(t *testing.T) {
			x.S = vshim.Begin(prefix, sc.Cfg)
			func() {
				defer func() {
					if r := recover(); r != nil {
						x.Fail("panic", "panic in scenario: %v\n%s", r, trimStack(debug.Stack()))
					}
				}()
				sc.Body(x)
			}()
			vshim.End()
		})
	}()
	<-done
	if x.S != nil {
		n := len(x.S.Points)
		tr.choices = make([]int, n)
		tr.ns = make([]int, n)
		tr.kinds = make([]byte, n)
		tr.sig = make([]uint64, n)
		for i := range x.S.Points {
			p := &x.S.Points[i]
			tr.choices[i], tr.ns[i], tr.kinds[i] = p.Choice, p.N, p.Kind
			tr.sig[i] = uint64(p.N)<<48 | uint64(p.Thread)<<32 | uint64(uint32(p.Site))
			if p.Miss {
				tr.miss = true
			}
		}
	}
	return x, tr, crash
}

func sigDiff(a, b *trace, i int) string {
	one := func(t *trace) string {
		if i >= len(t.sig) {
			return "end"
		}
		s := t.sig[i]
		return fmt.Sprintf("%c n=%d thread=%d %s", t.kinds[i], s>>48, s>>32&0xffff, vshim.SiteName(int(int32(uint32(s)))))
	}
	return one(a) + " vs " + one(b)
}

// compress a choice list into "i:c,i:c" (non-default choices only).
func encodeChoices(ch []int) string {
	var b strings.Builder
	for i, c := range ch {
		if c != 0 {
			if b.Len() > 0 {
				b.WriteByte(',')
			}
			fmt.Fprintf(&b, "%d:%d", i, c)
		}
	}
	return b.String()
}
func decodeChoices(s string) []int {
	var out []int
	if s == "" {
		return nil
	}
	for _, p := range strings.Split(s, ",") {
		a, b, _ := strings.Cut(p, ":")
		i, _ := strconv.Atoi(a)
		c, _ := strconv.Atoi(b)
		for len(out) < i {
			out = append(out, 0)
		}
		out = append(out, c)
	}
	return out
}

type schedCase struct {
	Scenario string `json:"scenario"`
	Choices  string `json:"choices"`
}

var lastRace int

// Explore enumerates every schedule of the scenario with at most Bound
// deviations from the default schedule.
func (j *J) Explore(sc *Scenario) {
	sc.defaults()
	var only []int
	if j.Replay != "" {
		var cs schedCase
		if json.Unmarshal([]byte(j.Replay), &cs) != nil || cs.Scenario != sc.Name {
			return
		}
		only = decodeChoices(cs.Choices)
	}
	caseOf := func(ch []int) string {
		b, _ := json.Marshal(schedCase{sc.Name, encodeChoices(ch)})
		return string(b)
	}
	violations := 0
	one := func(prefix []int, parent *trace) (trace, bool) {
		cs := caseOf(prefix)
		j.Case(cs)
		x, tr, crash := runExec(j.T, sc, prefix)
		j.res.Evals++
		progress.Add(1)
		if tf := os.Getenv("VH_TRACE"); tf != "" && x.S != nil {
			var b strings.Builder
			for i, p := range x.S.Points {
				fmt.Fprintf(&b, "%d %c n=%d choice=%d thread=%d %s\n", i, p.Kind, p.N, p.Choice, p.Thread, vshim.SiteName(p.Site))
			}
			os.WriteFile(tf, []byte(b.String()), 0o644)
		}
		if crash != "" {
			j.Fail(sc.Name+"/crash", cs, "%s", crash)
			violations++
			return tr, false
		}
		div := x.Out.Diverged
		if div == "" && parent != nil {
			for i := 0; i < len(prefix)-1; i++ {
				if i >= len(tr.sig) || tr.sig[i] != parent.sig[i] {
					div = fmt.Sprintf("point %d differs from the parent execution (%s)", i, sigDiff(parent, &tr, i))
					break
				}
			}
			if div == "" && len(tr.sig) < len(prefix) {
				div = "prefix not consumed"
			}
		}
		if div != "" {
			j.res.Diverged++
			j.Note(sc.Name+" divergence", div+" "+cs)
			return tr, false
		}
		j.res.Transitions += int64(x.S.Steps)
		j.res.States += int64(len(tr.ns))
		if tr.miss {
			j.res.Redundant++
		} else {
			j.res.Traces++
		}
		if x.Label != "" && sc.Quiet {
			j.Outcome(x.Label)
		} else if x.Label != "" {
			j.Outcome(sc.Name + " => " + x.Label)
		}
		for _, f := range x.failed {
			j.Fail(sc.Name+"/"+f.key, cs, "%s", f.msg)
			violations++
		}
		if n := raceErrors(); n > lastRace {
			lastRace = n
			rep := lastRaceReport()
			j.Fail("race:"+raceKey(rep), cs, "data race\n%s", rep)
			violations++
		}
		return tr, true
	}
	if j.Replay != "" {
		one(only, nil)
		return
	}
	count := 0
	var rec func(prefix []int, parent *trace, devs int, depth int)
	rec = func(prefix []int, parent *trace, devs int, depth int) {
		if violations > 5 {
			return
		}
		tr, ok := one(prefix, parent)
		count++
		if depth == 0 {
			j.Sample(fmt.Sprintf("scenario %s: default schedule has %d decision points", sc.Name, len(tr.ns)))
			if !sc.Quiet {
				j.Note(sc.Name+" points", strconv.Itoa(len(tr.ns)))
			}
		} else if count == 2 {
			j.Sample(fmt.Sprintf("schedule %s", caseOf(prefix)))
		}
		if !ok || (tr.miss && depth > 0) || devs >= sc.Bound {
			return
		}
		k := 0
		for i := len(prefix); i < len(tr.ns); i++ {
			for alt := 1; alt < tr.ns[i]; alt++ {
				k++
				if depth == 0 && j.Shards > 1 && k%j.Shards != j.Shard {
					continue
				}
				if violations > 5 || j.Expired("scenario "+sc.Name+": time ran out before all schedules of the bound") {
					return
				}
				np := make([]int, i+1)
				copy(np, tr.choices[:i])
				np[i] = alt
				rec(np, &tr, devs+1, depth+1)
			}
		}
	}
	rec(nil, nil, 0, 0)
	if sc.Quiet {
		return
	}
	j.Note(sc.Name+" bound", fmt.Sprintf("%d deviations", sc.Bound))
}

// ---- race reports ----

var raceRe = regexp.MustCompile(`(?m)^  ([A-Za-z0-9_./*()\-]+\([^\n]*\))$`)

func lastRaceReport() string {
	dir := os.Getenv("VH_TMP")
	ents, _ := filepath.Glob(filepath.Join(dir, fmt.Sprintf("race-*.%d", os.Getpid())))
	for _, e := range ents {
		b, err := os.ReadFile(e)
		if err != nil {
			continue
		}
		s := string(b)
		if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
			return clip(s[i:], 2500)
		}
	}
	return "(no report text)"
}

var fnRe = regexp.MustCompile(`github.com/mmadfox/go-gpsgen[^\s(]*(?:\(\*?[A-Za-z0-9_]+\))?\.?[A-Za-z0-9_.]*`)

func raceKey(rep string) string {
	// first in-module function of each of the two accesses
	parts := regexp.MustCompile(`(?m)^(Write|Read|Previous write|Previous read) at`).FindAllStringIndex(rep, -1)
	var out []string
	for i, p := range parts {
		end := len(rep)
		if i+1 < len(parts) {
			end = parts[i+1][0]
		}
		m := fnRe.FindString(rep[p[0]:end])
		if m != "" {
			out = append(out, filepath.Base(m))
		}
	}
	return strings.Join(out, "|")
}
