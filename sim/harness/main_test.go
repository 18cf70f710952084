//go:build go1.25

package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"testing"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzsim/simrt"
)

// Job is what the driver asks a worker process to do.
type Job struct {
	Mode   string   `json:"mode"` // run, replay, minimise
	Prop   string   `json:"prop"`
	Seed   uint64   `json:"seed"`  // master seed
	First  int      `json:"first"` // first run number of this worker
	Step   int      `json:"step"`
	Count  int      `json:"count"`
	Limit  float64  `json:"limit"` // wall seconds
	Deep   bool     `json:"deep"`
	Known  []string `json:"known"` // signatures listed as known findings
	Survey bool     `json:"survey"`
	Any    bool     `json:"any"` // violations of any property count
	In     string   `json:"in"`
	Out    string   `json:"out"`
	Dir    string   `json:"dir"`
	Kind   string   `json:"kind"`
	One    int64    `json:"one"` // exact scenario seed (survey)
	Trace  bool     `json:"trace"`
}

// Replay is a failing run.
type Replay struct {
	Property  string      `json:"property"`
	Sig       string      `json:"sig"`
	Message   string      `json:"message"`
	Seed      uint64      `json:"seed"`
	Hash      string      `json:"hash"`
	Minimised bool        `json:"minimised"`
	Scenario  *Scenario   `json:"scenario"`
	NChoices  int         `json:"nchoices"`
	Choices   [][2]int    `json:"choices"`
	All       []Violation `json:"all_violations"`
	Trace     []string    `json:"trace,omitempty"`
	SimMs     int64       `json:"sim_ms"`
}

// Result of a worker.
type Result struct {
	Runs     int            `json:"runs"`
	SimSec   float64        `json:"sim_sec"`
	WallSec  float64        `json:"wall_sec"`
	Slices   int64          `json:"slices"`
	Switches int64          `json:"switches"`
	Stmts    int64          `json:"stmts"`
	Ops      int64          `json:"ops"`
	Stats    map[string]int `json:"stats"`
	Probes   map[string]int `json:"probes"`
	Kinds    map[string]int `json:"kinds"`
	Hashes   []string       `json:"hashes"`
	Hist     []string       `json:"hist"`
	NonTriv  int            `json:"nontrivial"`
	Judged   int64          `json:"judged"`
	Known    map[string]int `json:"known"`
	Other    map[string]int `json:"other"`
	OtherEx  map[string]string
	Replay   *Replay  `json:"replay,omitempty"`
	Samples  []string `json:"samples"`
	TimedOut bool     `json:"timed_out"`
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

func (j *Job) pick(vs []Violation) *Violation {
	for i := range vs {
		if (j.Any || has(vs[i].Props, j.Prop)) && !has(j.Known, vs[i].Sig) {
			return &vs[i]
		}
	}
	return nil
}

func mkReplay(j *Job, sc *Scenario, o *Outcome, v *Violation) *Replay {
	r := &Replay{Property: j.Prop, Sig: v.Sig, Message: v.Msg, Seed: sc.Seed, Hash: fmt.Sprintf("%016x", o.Hash), Scenario: sc, NChoices: o.NChoices, All: o.Viol, SimMs: o.SimTime.Milliseconds()}
	for _, c := range o.Choices {
		r.Choices = append(r.Choices, [2]int{c.I, c.V})
	}
	return r
}

func (r *Replay) replayMap() map[int]int {
	m := make(map[int]int, len(r.Choices))
	for _, c := range r.Choices {
		m[c[0]] = c[1]
	}
	return m
}

func TestSim(t *testing.T) {
	out := os.Stdout
	setupProcess()
	confDir = t.TempDir()
	var j Job
	b, err := os.ReadFile(os.Getenv("VSIM_JOB"))
	if err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(b, &j); err != nil {
		t.Fatal(err)
	}
	runtime.GC()
	var res interface{}
	switch j.Mode {
	case "run":
		res = doRun(t, &j, out)
	case "replay":
		res = doReplay(t, &j)
	case "minimise":
		res = doMinimise(t, &j, out)
	case "determinism":
		res = doDeterminism(t, &j)
	default:
		t.Fatal("mode")
	}
	b, err = json.Marshal(res)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(j.Out, b, 0o644); err != nil {
		t.Fatal(err)
	}
}

func scenarioSeed(master uint64, n int) uint64 {
	return (simrt.NewRand(master*1000003+uint64(n)).U64() >> 12)
}

func doRun(t *testing.T, j *Job, out *os.File) *Result {
	r := &Result{Stats: map[string]int{}, Probes: map[string]int{}, Kinds: map[string]int{}, Known: map[string]int{}, Other: map[string]int{}, OtherEx: map[string]string{}}
	t0 := time.Now()
	cur, _ := os.Create(j.Out + ".cur") // what runs, should the process die of it
	defer cur.Close()
	for k := 0; k < j.Count; k++ {
		if j.Limit > 0 && time.Since(t0).Seconds() > j.Limit {
			r.TimedOut = true
			break
		}
		n := j.First + k*j.Step
		seed := scenarioSeed(j.Seed, n)
		if j.One != 0 {
			seed = uint64(j.One)
		}
		sc := Generate(j.Prop, seed, j.Deep, n)
		if j.Kind != "" && sc.Kind != j.Kind {
			continue
		}
		cur.WriteAt([]byte(fmt.Sprintf("%20d %20d %d\n", n, seed, r.Runs)), 0)
		ch := &simrt.Choices{Rng: simrt.NewRand(seed ^ 0x5eed)}
		o := execute(t, sc, ch, j.Trace)
		if o.Wall > 20*time.Second {
			fmt.Fprintf(out, "slow run seed=%d kind=%s %v slices=%d stmts=%d sim=%v\n", seed, sc.Kind, o.Wall, o.Slices, o.Stmts, o.SimTime)
		}
		if j.Trace {
			for _, l := range o.Trace {
				fmt.Fprintln(out, l)
			}
		}
		r.add(sc, o)
		for _, v := range o.Viol {
			if has(j.Known, v.Sig) {
				r.Known[v.Sig]++
				continue
			}
			if j.Survey || !has(v.Props, j.Prop) {
				r.Other[v.Sig]++
				if r.OtherEx[v.Sig] == "" {
					r.OtherEx[v.Sig] = fmt.Sprintf("seed=%d kind=%s props=%v %s", seed, sc.Kind, v.Props, v.Msg)
				}
			}
		}
		if j.Survey {
			continue
		}
		if v := j.pick(o.Viol); v != nil {
			r.Replay = mkReplay(j, sc, o, v)
			break
		}
	}
	r.WallSec = time.Since(t0).Seconds()
	return r
}

func (r *Result) add(sc *Scenario, o *Outcome) {
	r.Runs++
	r.SimSec += o.SimTime.Seconds()
	r.Slices += int64(o.Slices)
	r.Switches += int64(o.Switches)
	r.Stmts += o.Stmts
	r.Ops += int64(o.Ops)
	for k, v := range o.Stats {
		r.Stats[k] += v
	}
	for k, v := range o.Probes {
		r.Probes[k] += v
	}
	r.Kinds[sc.Kind]++
	r.Judged += int64(o.Judged)
	if o.Switches > 20 && o.Judged > 0 {
		r.NonTriv++
		r.Hashes = append(r.Hashes, fmt.Sprintf("%016x", o.Hash))
		r.Hist = append(r.Hist, fmt.Sprintf("%016x", o.Hist))
	}
	if len(r.Samples) < 2 {
		r.Samples = append(r.Samples, fmt.Sprintf("seed %d (%s): %d actors, %d steps, %.1f s simulated, %d context switches, schedule %016x, %d judgements", sc.Seed, sc.Kind, len(sc.Actors), o.Ops, o.SimTime.Seconds(), o.Switches, o.Hash, o.Judged))
	}
}

type replayResult struct {
	Same   bool        `json:"same"`
	Hash   string      `json:"hash"`
	Viol   []Violation `json:"viol"`
	Replay *Replay     `json:"replay"`
}

func readReplay(t *testing.T, p string) *Replay {
	b, err := os.ReadFile(p)
	if err != nil {
		t.Fatal(err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		t.Fatal(err)
	}
	return &r
}

func doReplay(t *testing.T, j *Job) interface{} {
	r := readReplay(t, j.In)
	o := execute(t, r.Scenario, &simrt.Choices{Replay: r.replayMap()}, true)
	rr := &replayResult{Hash: fmt.Sprintf("%016x", o.Hash), Viol: o.Viol}
	for _, v := range o.Viol {
		if v.Sig == r.Sig && has(v.Props, r.Property) {
			rr.Same = rr.Hash == r.Hash
		}
	}
	r.Trace = o.Trace
	rr.Replay = r
	return rr
}

func doDeterminism(t *testing.T, j *Job) interface{} {
	m := map[string]string{}
	for k := 0; k < j.Count; k++ {
		n := j.First + k*j.Step
		seed := scenarioSeed(j.Seed, n)
		o := execute(t, Generate(j.Prop, seed, j.Deep, n), &simrt.Choices{Rng: simrt.NewRand(seed ^ 0x5eed)}, false)
		m[fmt.Sprint(seed)] = fmt.Sprintf("%016x/%016x/%d/%d/%d", o.Hash, o.Hist, o.Slices, o.Stmts, o.NChoices)
	}
	return m
}

// ------------------------------------------------------------------ minimisation

func clone(sc *Scenario) *Scenario {
	b, _ := json.Marshal(sc)
	var c Scenario
	_ = json.Unmarshal(b, &c)
	return &c
}

type minimiser struct {
	t    *testing.T
	j    *Job
	best *Replay
	end  time.Time
	runs int
}

func (m *minimiser) over() bool { return time.Now().After(m.end) }

func (m *minimiser) hit(sc *Scenario, ch *simrt.Choices) bool {
	m.runs++
	o := execute(m.t, sc, ch, false)
	for i := range o.Viol {
		v := &o.Viol[i]
		if v.Sig == m.best.Sig && has(v.Props, m.best.Property) {
			r := mkReplay(m.j, sc, o, v)
			r.Property = m.best.Property
			m.best = r
			return true
		}
	}
	return false
}

// try a changed scenario under the recorded choices, none, and a few fresh ones.
func (m *minimiser) try(sc *Scenario) bool {
	if m.hit(sc, &simrt.Choices{Replay: m.best.replayMap()}) {
		return true
	}
	for k := uint64(0); k < 4 && !m.over(); k++ {
		if m.hit(sc, &simrt.Choices{Rng: simrt.NewRand(sc.Seed ^ 0x5eed + k)}) {
			return true
		}
	}
	return false
}

func doMinimise(t *testing.T, j *Job, out *os.File) interface{} {
	m := &minimiser{t: t, j: j, best: readReplay(t, j.In), end: time.Now().Add(time.Duration(j.Limit * float64(time.Second)))}
	for round := 0; round < 4 && !m.over(); round++ {
		before := size(m.best.Scenario)
		for a := len(m.best.Scenario.Actors) - 1; a >= 0 && !m.over(); a-- { // whole actors
			sc := clone(m.best.Scenario)
			if a >= len(sc.Actors) || len(sc.Actors[a].Ops) == 0 {
				continue
			}
			sc.Actors[a].Ops = nil
			m.try(sc)
		}
		for a := range m.best.Scenario.Actors { // runs of steps
			for w := (len(m.best.Scenario.Actors[a].Ops) + 1) / 2; w >= 1 && !m.over(); w /= 2 {
				for i := 0; i < len(m.best.Scenario.Actors[a].Ops) && !m.over(); {
					sc := clone(m.best.Scenario)
					ops := sc.Actors[a].Ops
					e := i + w
					if e > len(ops) {
						e = len(ops)
					}
					sc.Actors[a].Ops = append(append([]Op{}, ops[:i]...), ops[e:]...)
					if !m.try(sc) {
						i += w
					}
				}
			}
		}
		for a := range m.best.Scenario.Actors { // shorter talks, no pauses
			for i := range m.best.Scenario.Actors[a].Ops {
				for m.best.Scenario.Actors[a].Ops[i].N > 1 && isLong(m.best.Scenario.Actors[a].Ops[i].K) && !m.over() {
					sc := clone(m.best.Scenario)
					sc.Actors[a].Ops[i].N /= 2
					if !m.try(sc) {
						break
					}
				}
				if m.best.Scenario.Actors[a].Ops[i].D > 0 && !m.over() {
					sc := clone(m.best.Scenario)
					sc.Actors[a].Ops[i].D = 0
					m.try(sc)
				}
			}
		}
		for k := 0; k < 10 && !m.over(); k++ { // plainer conditions
			sc := clone(m.best.Scenario)
			switch k {
			case 0:
				sc.Net.DelayMax = 0
			case 1:
				sc.Net.SplitPct = 0
			case 2:
				sc.Net.CutPct = 0
			case 3:
				sc.RT.StallPm, sc.RT.StallMax = 0, 0
			case 4:
				sc.RT.MapPct = 0
			case 5:
				sc.RT.PreemptMean = 0
			case 6:
				sc.RT.SyncPct = 0
			case 7:
				sc.RT.PreemptMean *= 10
			case 8:
				sc.Disk, sc.RT.DiskPm = false, 0
			case 9:
				sc.Date = 0
			}
			m.try(sc)
		}
		if size(m.best.Scenario) >= before {
			break
		}
	}
	// scheduling choices: as few deviations as possible
	for w := (len(m.best.Choices) + 1) / 2; w >= 1 && !m.over(); w /= 2 {
		for i := 0; i < len(m.best.Choices) && !m.over(); {
			mp := map[int]int{}
			for k, c := range m.best.Choices {
				if k < i || k >= i+w {
					mp[c[0]] = c[1]
				}
			}
			if len(mp) == len(m.best.Choices) {
				break
			}
			if !m.hit(m.best.Scenario, &simrt.Choices{Replay: mp}) {
				i += w
			}
		}
		if w == 1 {
			break
		}
	}
	// the recorded choices of a shrunk run replay it exactly
	m.best.Minimised = true
	o := execute(t, m.best.Scenario, &simrt.Choices{Replay: m.best.replayMap()}, true)
	m.best.Hash = fmt.Sprintf("%016x", o.Hash)
	m.best.Trace = o.Trace
	m.best.All = o.Viol
	for _, v := range o.Viol {
		if v.Sig == m.best.Sig {
			m.best.Message = v.Msg
			break
		}
	}
	sort.SliceStable(m.best.Choices, func(a, b int) bool { return m.best.Choices[a][0] < m.best.Choices[b][0] })
	fmt.Fprintf(out, "minimised in %d runs: %d steps, %d choices\n", m.runs, size(m.best.Scenario), len(m.best.Choices))
	return m.best
}

func isLong(k string) bool {
	switch k {
	case "talk", "talklist", "storm", "burst":
		return true
	}
	return false
}

func size(sc *Scenario) int {
	n := 0
	for _, a := range sc.Actors {
		n += len(a.Ops)
		for _, o := range a.Ops {
			if isLong(o.K) {
				n += o.N
			}
		}
	}
	return n
}
