// Command mc explores the executions of d1-lib exhaustively within bounds and checks properties on
// every one of them. See /verif/DESIGN.md.
package main

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/shim/vsched"
)

// Prop is one checked property.
type Prop struct {
	ID        string
	Level     string // evidence level
	Rule      string // what is enumerated and what counts as non-trivial
	Assume    []string
	Scenarios func(thorough bool) []*Scenario
	QuickS    int // internal deadline of the quick tier, seconds
	ThoroughS int
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

const defaultQuick = 150

func tierThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func main() {
	if len(os.Args) < 3 {
		die("usage: mc run|worker|replay ...")
	}
	switch os.Args[1] {
	case "run":
		os.Exit(parent(os.Args[2]))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2])
	case "list":
		for _, id := range sortedKeys(props) {
			fmt.Println(id)
		}
	default:
		die("unknown command")
	}
}

type workerArgs struct {
	id       string
	index, n int
	deadline time.Time
}

// worker ID INDEX COUNT DEADLINE_UNIX OUT
func worker(a []string) {
	p := props[a[0]]
	idx, _ := strconv.Atoi(a[1])
	n, _ := strconv.Atoi(a[2])
	dl, _ := strconv.ParseInt(a[3], 10, 64)
	hbf := os.NewFile(3, "hb")
	last := time.Now()
	count := 0
	hb := func() {
		count++
		if count%16 == 0 {
			if t := time.Now(); t.Sub(last) > 2*time.Second {
				last = t
				hbf.Write([]byte{'.'})
			}
		}
	}
	r := &runner{prop: p.ID, worker: idx, workers: n, deadline: time.Unix(dl, 0),
		stats:  &Stats{Exhaustive: true, PerScenario: map[string]*ScStats{}},
		states: map[uint64]struct{}{}, outs: map[string]int{}, known: knownSigs(), sigs: map[string]bool{}, hb: hb}
	only := os.Getenv("MC_SCENARIO")
	var scs []*Scenario
	for _, sc := range p.Scenarios(tierThorough()) {
		if strings.HasPrefix(sc.Name, only) {
			scs = append(scs, sc)
		}
	}
	r.run(scs)
	for h := range r.states {
		r.stats.States = append(r.stats.States, h)
	}
	r.stats.Outcomes = r.outs
	f, err := os.Create(a[4])
	if err != nil {
		die("%v", err)
	}
	if err := gob.NewEncoder(f).Encode(r.stats); err != nil {
		die("%v", err)
	}
	f.Close()
}

// ---- known findings --------------------------------------------------------

type finding struct{ prop, sig, what string }

var findingRe = regexp.MustCompile(`^finding: property=(\S+) sig=(\S+) (.*)$`)

func loadFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var r []finding
	for _, l := range strings.Split(string(b), "\n") {
		if m := findingRe.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			r = append(r, finding{m[1], m[2], m[3]})
		}
	}
	return r
}

func knownSigs() map[string]bool {
	m := map[string]bool{}
	if os.Getenv("MC_NOKNOWN") != "" {
		return m
	}
	for _, f := range loadFindings() {
		m[f.prop+" "+f.sig] = true
	}
	return m
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// ---- parent ----------------------------------------------------------------

type wres struct {
	stats  *Stats
	crash  string // stderr of a crashed worker
	hung   bool
	stderr string
}

func runWorkers(p *Prop, n int, deadline time.Time, only int) []wres {
	res := make([]wres, n)
	tmp, err := os.MkdirTemp("", "mcw")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)
	exe, _ := os.Executable()
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		if only >= 0 && i != only {
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("w%d", i))
			scratch := filepath.Join(tmp, fmt.Sprintf("s%d", i))
			os.Mkdir(scratch, 0o700)
			pr, pw, _ := os.Pipe()
			cmd := exec.Command(exe, "worker", p.ID, strconv.Itoa(i), strconv.Itoa(n), strconv.FormatInt(deadline.Unix(), 10), out)
			cmd.ExtraFiles = []*os.File{pw}
			var eb bytes.Buffer
			cmd.Stderr = &eb
			if os.Getenv("MC_TIME") != "" {
				cmd.Stderr = os.Stderr
			}
			cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=400", "MC_SCRATCH="+scratch,
				"GORACE=halt_on_error=0 exitcode=0 history_size=2 atexit_sleep_ms=0", "GOTRACEBACK=single", "GOMEMLIMIT=3000MiB")
			if err := cmd.Start(); err != nil {
				die("%v", err)
			}
			pw.Close()
			beat := make(chan struct{}, 64)
			go func() {
				b := make([]byte, 64)
				for {
					if _, err := pr.Read(b); err != nil {
						return
					}
					beat <- struct{}{}
				}
			}()
			fin := make(chan error, 1)
			go func() { fin <- cmd.Wait() }()
			grace := 90 * time.Second
			t := time.NewTimer(grace)
			for {
				select {
				case err := <-fin:
					pr.Close()
					res[i].stderr = eb.String()
					if err != nil {
						res[i].crash = clip(eb.String(), 6000)
						if res[i].crash == "" {
							res[i].crash = err.Error()
						}
						return
					}
					f, err := os.Open(out)
					if err != nil {
						res[i].crash = "no result file"
						return
					}
					defer f.Close()
					st := &Stats{}
					if err := gob.NewDecoder(f).Decode(st); err != nil {
						res[i].crash = "unreadable result: " + err.Error()
						return
					}
					res[i].stats = st
					return
				case <-beat:
					t.Reset(grace)
				case <-t.C:
					res[i].hung = true
					cmd.Process.Kill()
					<-fin
					pr.Close()
					return
				}
			}
		}(i)
	}
	wg.Wait()
	return res
}

// Replay is the stored form of a violation.
type Replay struct {
	Property  string
	Tier      string
	Scenario  string
	Signature string
	Message   string
	Trace     []string
	Picks     []uint16
	Ns        []uint16
	Ks        []vsched.Kind
	Mode      string // trace: replays alone; shard: needs the executions before it
	Worker    int
	Workers   int
	Confirmed string
	Command   string
	Detail    string
}

func parent(id string) int {
	t0 := time.Now()
	p := props[id]
	if p == nil {
		die("unknown property %s", id)
	}
	thorough := tierThorough()
	secs := p.QuickS
	if secs == 0 {
		secs = defaultQuick
	}
	if thorough {
		secs = p.ThoroughS
		if secs == 0 {
			secs = 3600
		}
	}
	if v := os.Getenv("MC_SECONDS"); v != "" {
		secs, _ = strconv.Atoi(v)
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if v := os.Getenv("MC_WORKERS"); v != "" {
		n, _ = strconv.Atoi(v)
	}
	deadline := t0.Add(time.Duration(secs) * time.Second)
	res := runWorkers(p, n, deadline, -1)

	total := &Stats{Exhaustive: true, PerScenario: map[string]*ScStats{}, Outcomes: map[string]int{}}
	states := map[uint64]struct{}{}
	var viols []Violation
	var crashes []int
	for i, r := range res {
		if r.hung {
			total.Exhaustive = false
			total.Notes = append(total.Notes, fmt.Sprintf("worker %d made no progress and was ended: inconclusive", i))
			continue
		}
		if r.crash != "" {
			total.Exhaustive = false
			crashes = append(crashes, i)
			continue
		}
		s := r.stats
		total.Executions += s.Executions
		total.Owned += s.Owned
		total.Transitions += s.Transitions
		total.Points += s.Points
		total.Switches += s.Switches
		if s.MaxChoices > total.MaxChoices {
			total.MaxChoices = s.MaxChoices
		}
		for _, h := range s.States {
			states[h] = struct{}{}
		}
		for k, v := range s.Outcomes {
			total.Outcomes[k] += v
		}
		for k, v := range s.PerScenario {
			t := total.PerScenario[k]
			if t == nil {
				t = &ScStats{Complete: true}
				total.PerScenario[k] = t
			}
			t.Executions += v.Executions
			if v.Outcomes > t.Outcomes {
				t.Outcomes = v.Outcomes
			}
			if v.MaxPoints > t.MaxPoints {
				t.MaxPoints = v.MaxPoints
			}
			t.Complete = t.Complete && v.Complete
		}
		if !s.Exhaustive {
			total.Exhaustive = false
		}
		for _, nt := range s.Notes {
			dup := false
			for _, o := range total.Notes {
				dup = dup || o == nt
			}
			if !dup {
				total.Notes = append(total.Notes, nt)
			}
		}
		if len(total.Samples) < 6 {
			total.Samples = append(total.Samples, s.Samples...)
		}
		viols = append(viols, s.Violations...)
	}
	if len(total.Samples) > 6 {
		total.Samples = total.Samples[:6]
	}
	sort.SliceStable(viols, func(i, j int) bool { return len(viols[i].Picks) < len(viols[j].Picks) })

	known := knownSigs()
	os.MkdirAll(filepath.Join(verifDir(), "evidence", "replay"), 0o755)
	exit := 0
	nviol := 0
	seenKnown := map[string]bool{}
	reported := map[string]bool{}
	var unconfirmed []string
	for _, v := range viols {
		if known[v.Prop+" "+v.Sig] {
			seenKnown[v.Prop+" "+v.Sig] = true
			continue
		}
		if reported[v.Sig] || nviol >= 5 && os.Getenv("MC_ALL") == "" {
			continue
		}
		reported[v.Sig] = true
		rp := Replay{Property: id, Tier: tierName(), Scenario: v.Scenario, Signature: v.Sig, Message: v.Msg, Trace: v.Trace,
			Picks: v.Picks, Ns: v.Ns, Ks: v.Ks, Worker: v.Worker, Workers: n}
		path := filepath.Join(verifDir(), "evidence", "replay", id+"-"+safe(v.Sig)+".json")
		rp.Mode = "trace"
		rp.Command = fmt.Sprintf("VERIF_TIER=%s /verif/harness/replay.sh %s", tierName(), path)
		writeJSON(path, rp)
		okc := 0
		exe, _ := os.Executable()
		for k := 0; k < 5; k++ {
			scratch, _ := os.MkdirTemp("", "mcr")
			cmd := exec.Command(exe, "replay", path)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "MC_SCRATCH="+scratch, "GORACE=halt_on_error=0 exitcode=0 history_size=2 atexit_sleep_ms=0")
			out, _ := runTimeout(cmd, 60*time.Second)
			os.RemoveAll(scratch)
			if strings.Contains(out, "REPRODUCED "+v.Sig) {
				okc++
			}
			if k == 0 {
				rp.Detail = clip(out, 6000)
			}
		}
		rp.Confirmed = fmt.Sprintf("%d of 5 replays", okc)
		if okc == 0 {
			// The failure may need the executions that preceded it (state kept across calls).
			rr := runWorkers(p, n, time.Now().Add(time.Duration(secs)*time.Second), v.Worker)
			s := rr[v.Worker].stats
			if s != nil {
				for _, w := range s.Violations {
					if w.Sig == v.Sig && w.Scenario == v.Scenario {
						okc++
						rp.Mode = "shard"
						rp.Confirmed = "by re-running the whole enumeration of the shard"
						break
					}
				}
			}
		}
		if okc == 0 {
			unconfirmed = append(unconfirmed, v.Scenario+": "+v.Sig+": "+clip(v.Msg, 300))
			os.Remove(path)
			continue
		}
		writeJSON(path, rp)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  scenario=%s sig=%s confirmed=%s\n  %s\n", v.Scenario, v.Sig, rp.Confirmed, strings.ReplaceAll(clip(v.Msg, 1500), "\n", "\n  "))
		for _, l := range v.Trace {
			fmt.Println("    " + clip(l, 300))
		}
		exit = 1
		nviol++
	}
	for _, i := range crashes {
		// A fatal runtime error ends the worker; believe it when it repeats.
		c := res[i].crash
		total.Notes = append(total.Notes, fmt.Sprintf("worker %d crashed: %s", i, clip(c, 400)))
		if exit == 0 && (strings.Contains(c, "fatal error:") || strings.Contains(c, "panic:")) && !strings.Contains(c, "out of memory") {
			rr := runWorkers(p, n, time.Now().Add(time.Duration(secs)*time.Second), i)
			if c2 := rr[i].crash; c2 != "" && firstFatal(c2) == firstFatal(c) {
				path := filepath.Join(verifDir(), "evidence", "replay", id+"-crash.json")
				writeJSON(path, Replay{Property: id, Tier: tierName(), Signature: "crash", Message: c, Mode: "shard", Worker: i, Workers: n,
					Confirmed: "by re-running the shard"})
				fmt.Printf("VIOLATION property=%s replay=%s\n  the process crashed: %s\n", id, path, clip(c, 1500))
				exit = 1
				nviol++
			}
		}
	}
	for _, f := range loadFindings() {
		if f.prop != id {
			continue
		}
		if seenKnown[f.prop+" "+f.sig] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.what)
		} else if exit == 0 {
			total.Notes = append(total.Notes, "known finding not observed in this run: "+f.sig)
		}
	}
	for _, u := range unconfirmed {
		total.Notes = append(total.Notes, "observed once, did not replay, not reported: "+u)
		total.Exhaustive = false
	}
	writeEvidence(p, total, states, nviol, time.Since(t0))
	fmt.Printf("%s %s: %d executions (%d switch points), %d operations, %d states, %d outcomes, exhaustive=%v, %.1fs\n",
		id, tierName(), total.Owned, total.Points, total.Transitions, len(states), len(total.Outcomes), total.Exhaustive, time.Since(t0).Seconds())
	for _, nt := range total.Notes {
		fmt.Println("  note: " + nt)
	}
	return exit
}

func firstFatal(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") {
			return clip(l, 60)
		}
	}
	return ""
}

func runTimeout(cmd *exec.Cmd, d time.Duration) (string, error) {
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Start(); err != nil {
		return "", err
	}
	fin := make(chan error, 1)
	go func() { fin <- cmd.Wait() }()
	select {
	case err := <-fin:
		return b.String(), err
	case <-time.After(d):
		cmd.Process.Kill()
		<-fin
		return b.String(), fmt.Errorf("timeout")
	}
}

func safe(s string) string {
	s = regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(s, "_")
	return clip(s, 80)
}

func tierName() string {
	if tierThorough() {
		return "thorough"
	}
	return "quick"
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		die("%v", err)
	}
	p := props[rp.Property]
	if p == nil {
		die("unknown property")
	}
	for _, sc := range p.Scenarios(rp.Tier == "thorough") {
		if sc.Name != rp.Scenario {
			continue
		}
		r := &runner{prop: p.ID, workers: 1, stats: &Stats{PerScenario: map[string]*ScStats{}}, states: map[uint64]struct{}{},
			outs: map[string]int{}, known: map[string]bool{}, sigs: map[string]bool{}, hb: func() {}}
		vsched.Configure(r.config(sc))
		vsched.Reset()
		vsched.SetPrefix(rp.Picks, rp.Ns, rp.Ks)
		x, res := r.one(sc)
		for _, l := range x.trace {
			fmt.Println("  " + l)
		}
		if res.Diverged {
			fmt.Println("DIVERGED " + res.Why)
		}
		for _, f := range x.fails {
			fmt.Printf("REPRODUCED %s\n  %s\n", f.Sig, f.Msg)
		}
		return
	}
	die("unknown scenario %s", rp.Scenario)
}

func writeEvidence(p *Prop, s *Stats, states map[uint64]struct{}, nviol int, wall time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	build := os.Getenv("MC_BUILD")
	var per []string
	for _, k := range sortedKeys(s.PerScenario) {
		v := s.PerScenario[k]
		per = append(per, fmt.Sprintf("%s: %d executions, complete=%v, up to %d switch points", k, v.Executions, v.Complete, v.MaxPoints))
	}
	samples := s.Samples
	if len(samples) == 0 {
		samples = []string{"(none)"}
	}
	cov := map[string]any{
		"exhaustive":        s.Exhaustive,
		"scenarios":         per,
		"distinct_outcomes": len(s.Outcomes),
		"outcome_examples":  topOutcomes(s.Outcomes),
		"samples":           samples,
		"scheduling_points": s.Points,
		"context_switches":  s.Switches,
		"max_choice_depth":  s.MaxChoices,
		"notes":             append([]string{}, s.Notes...),
		"build":             build,
		"rule":              p.Rule,
	}
	switch p.Level {
	case "model_checking":
		cov["states"] = len(states)
		cov["transitions"] = s.Transitions
		cov["traces_validated_against_impl"] = s.Owned
	default:
		cov["evaluations"] = s.Transitions
		cov["distinct_nontrivial"] = len(states)
	}
	assume := append([]string{
		"The Go toolchain, the standard library, AES, SHA-3 and the JSON library are trusted.",
		"Nothing is claimed beyond the enumerated alphabets, depths and deviation bounds listed under scenarios and rule.",
	}, p.Assume...)
	ev := map[string]any{
		"property": p.ID, "tier": tierName(), "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": assume, "wall_s": wall.Seconds(), "violations": nviol,
	}
	writeJSON(filepath.Join(verifDir(), "evidence", p.ID+".json"), ev)
}

func topOutcomes(m map[string]int) []string {
	var r []string
	for _, k := range sortedKeys(m) {
		r = append(r, fmt.Sprintf("%s (x%d)", clip(k, 160), m[k]))
		if len(r) >= 25 {
			break
		}
	}
	return r
}
