package mc

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is a property's check.
type Prop struct {
	ID     string
	Level  string
	Assume []string
	Run    func(*T)
}

type finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Status   string `json:"status"`
	What     string `json:"what"`
}

const (
	exitHang   = 97
	hangLimit  = 75 * time.Second
	childLimit = 40 * time.Minute
)

// Main runs the check of one property.
func Main(props []Prop) {
	var (
		id       = flag.String("prop", "", "property")
		tier     = flag.String("tier", "quick", "quick or thorough")
		evidence = flag.String("evidence", "", "evidence file")
		known    = flag.String("known", "", "known findings")
		replays  = flag.String("replays", "", "folder for replay files")
		replay   = flag.String("replay", "", "replay this file")
		child    = flag.String("child", "", "internal: slot file")
		one      = flag.Bool("one", false, "internal: replay for the supervisor")
		limit    = flag.Duration("limit", 0, "time limit of the exploration")
	)
	flag.Parse()
	var prop *Prop
	for i := range props {
		if props[i].ID == *id {
			prop = &props[i]
		}
	}
	if prop == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(3)
	}
	if *child == "" {
		os.Exit(supervise(*id, *tier, *replays, *replay))
	}
	if !RaceEnabled {
		// code that allocates without bound ends this process, not the machine
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 20 << 30, Max: 20 << 30})
	}
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(12 << 30)
	t := &T{ID: *id, Tier: *tier, known: map[string]string{}, knownHits: map[string]int64{}, knownEx: map[string]string{}, Extra: map[string]any{}}
	t.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if b, err := os.ReadFile(*known); err == nil {
		var fs []finding
		if err := json.Unmarshal(b, &fs); err != nil {
			fmt.Fprintln(os.Stderr, *known, err)
			os.Exit(3)
		}
		for _, f := range fs {
			if f.Property == *id && f.Status == "known" {
				t.known[f.Key] = f.What
			}
		}
	}
	var err error
	if t.slots, err = mapSlots(*child, false); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	go watchdog(t.slots)
	lim := *limit
	if lim == 0 {
		lim = Sel(t, 240*time.Second, 25*time.Minute)
	}
	start := time.Now()
	t.deadline = start.Add(lim)
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		t.replay = new(Replay)
		if err := json.Unmarshal(b, t.replay); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		if t.replay.Tier != "" {
			t.Tier = t.replay.Tier
		}
		prop.Run(t)
		if !*one {
			for _, l := range t.replayLog {
				fmt.Println(" ", valid(l))
			}
			for _, k := range sortedKeys(t.knownHits) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", t.ID, valid(t.knownEx[k]))
			}
		}
		if t.viol != nil {
			if !*one {
				fmt.Println(valid(t.viol.What))
				fmt.Printf("VIOLATION property=%s replay=%s\n", t.ID, *replay)
			}
			os.Exit(1)
		}
		if !t.replayed {
			fmt.Fprintln(os.Stderr, "no scenario", t.replay.Scenario)
			os.Exit(3)
		}
		os.Exit(0)
	}
	prop.Run(t)
	code := 0
	if t.viol != nil {
		path := writeReplay(*replays, t.viol)
		fmt.Printf("%s: scenario %s: %s (%s)\n", t.ID, t.viol.Scenario, valid(t.viol.What), t.viol.Reruns)
		for _, l := range t.viol.Trace {
			fmt.Println("   ", valid(l))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", t.ID, path)
		code = 1
	}
	for _, k := range sortedKeys(t.knownHits) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (seen %d times, e.g. %s)\n", t.ID, k, t.known[k], t.knownHits[k], valid(t.knownEx[k]))
	}
	writeEvidence(*evidence, prop, t, time.Since(start).Seconds())
	os.Exit(code)
}

func writeReplay(dir string, v *Violation) string {
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", v.Property, time.Now().UnixNano()))
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

func writeEvidence(path string, p *Prop, t *T, wall float64) {
	var samples []any
	if t.viol == nil {
		samples = t.collectSamples()
	} else {
		samples = []any{map[string]any{"scenario": t.viol.Scenario, "choices": t.viol.Choices, "violation": t.viol.What}}
	}
	var trans, execs int64
	exhaustive := t.viol == nil
	var scs []any
	sum := 0.0
	for _, s := range t.scs {
		trans += s.steps.Load()
		execs += s.execs.Load()
		exhaustive = exhaustive && s.complete
		m := map[string]any{"name": s.name, "executions": s.execs.Load(), "impl_steps": s.steps.Load(),
			"max_choices": s.maxDepth, "complete": s.complete, "wall_s": float64(int(s.wall*100)) / 100}
		if s.budget > 0 {
			m["deviation_bound"] = s.budget
		}
		if s.bound != "" {
			m["bound"] = s.bound
		}
		if len(s.outcomes) > 0 {
			m["outcomes"] = s.outcomes
		}
		scs = append(scs, m)
		sum += s.wall
	}
	cov := map[string]any{
		"states":                        t.nstates.Load(),
		"transitions":                   trans,
		"traces_validated_against_impl": execs,
		"samples":                       samples,
		"exhaustive":                    exhaustive,
		"scenarios":                     scs,
		"known_findings_seen":           t.knownHits,
		"sample_replays_that_differed":  t.nondet,
		"rule": "states: distinct model states / inputs with the model's answer (hashed); transitions: calls of the " +
			"implementation compared with the model; traces: complete executions of the real code, each choice sequence once",
	}
	if t.stateCap {
		cov["states_capped_at"] = maxStates
	}
	for k, v := range t.Extra {
		cov[k] = v
	}
	level := p.Level
	if level == "" {
		level = "model_checking"
	}
	v := 0
	if t.viol != nil {
		v = 1
	}
	ev := map[string]any{
		"property": t.ID, "tier": t.Tier, "seed": t.Seed, "level": level, "coverage": cov,
		"assumptions": append(append([]string{}, p.Assume...), t.Assume...), "wall_s": wall, "violations": v,
	}
	if path == "" {
		path = os.DevNull
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	fmt.Printf("%s %s: %d executions, %d states, %d impl steps, exhaustive=%v, %.1fs\n", t.ID, t.Tier, execs, t.nstates.Load(), trans, exhaustive, wall)
}

// watchdog ends the process when one execution takes very long.
func watchdog(slots []*slot) {
	last := map[int]int64{}
	seen := map[int]int{}
	for {
		time.Sleep(time.Second)
		for i, s := range slots {
			if atomic.LoadUint32(&s.Active) != 1 {
				last[i] = 0
				continue
			}
			st := atomic.LoadInt64(&s.Start)
			if last[i] != st {
				last[i], seen[i] = st, 0
				continue
			}
			if seen[i]++; seen[i] >= int(hangLimit/time.Second) {
				atomic.StoreUint32(&s.Active, 2)
				buf := make([]byte, 1<<16)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(exitHang)
			}
		}
	}
}

// supervise runs the exploration in a child process, so that a crash or hang of the code
// under test is attributed to the execution that caused it.
func supervise(id, tier, replays, replay string) int {
	dir, err := os.MkdirTemp("", "vmc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	run := func(args ...string) (int, *cappedBuf, []*slot) {
		path := filepath.Join(dir, "slots")
		slots, err := mapSlots(path, true)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3, nil, nil
		}
		cmd := exec.Command(os.Args[0], append(args, "-child", path)...)
		tail := &cappedBuf{}
		cmd.Stdout = os.Stdout
		cmd.Stderr = tail
		cmd.Env = append(os.Environ(), "VMC_SCRATCH="+dir)
		if RaceEnabled {
			cmd.Env = append(cmd.Env, "GORACE=halt_on_error=1 exitcode=66 history_size=3")
		}
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3, tail, slots
		}
		timer := time.AfterFunc(childLimit, func() { cmd.Process.Kill() })
		err = cmd.Wait()
		timer.Stop()
		if err == nil {
			return 0, tail, slots
		}
		return cmd.ProcessState.ExitCode(), tail, slots
	}
	args := os.Args[1:]
	code, tail, slots := run(args...)
	if code == 0 || code == 1 {
		os.Stderr.Write(tail.b)
		return code
	}
	if replay != "" {
		os.Stderr.Write(tail.b)
		if code != 3 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
			return 1
		}
		return code
	}
	fatal := string(tail.b)
	fmt.Printf("%s: the process running the exploration ended with code %d\n", id, code)
	if len(fatal) > 3000 {
		fatal = fatal[:3000]
	}
	fmt.Println(valid(fatal))
	type cand struct {
		name string
		vec  []int
		prio int
	}
	var cands []cand
	for _, s := range slots {
		if a := atomic.LoadUint32(&s.Active); a != 0 {
			cands = append(cands, cand{s.name(), s.vec(), -int(a)})
		}
	}
	sort.SliceStable(cands, func(i, j int) bool { return cands[i].prio < cands[j].prio })
	for _, cd := range cands {
		v := &Violation{Property: id, Tier: tier, Scenario: cd.name, Choices: cd.vec}
		file := filepath.Join(dir, "cand.json")
		b, _ := json.Marshal(v)
		os.WriteFile(file, b, 0o600)
		c2, tail2, _ := run(append(append([]string{}, args...), "-replay", file, "-one")...)
		if c2 == 0 || c2 == 3 {
			continue
		}
		switch {
		case c2 == 1:
			v.What = "fails when run alone after the process crashed"
		case c2 == exitHang:
			v.What = fmt.Sprintf("does not return (no progress for %v, twice)", hangLimit)
		default:
			v.What = "crashes the process: " + firstLines(string(tail2.b), 12)
		}
		path := writeReplay(replays, v)
		fmt.Printf("%s: scenario %s choices %v: %s\n", id, v.Scenario, v.Choices, valid(v.What))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	if strings.Contains(fatal, "fatal error:") || strings.Contains(fatal, "panic:") || code == exitHang {
		v := &Violation{Property: id, Tier: tier, Scenario: "whole run", What: "the process crashed: " + firstLines(fatal, 12)}
		path := writeReplay(replays, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	return 2
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// cappedBuf keeps the first 64 kB.
type cappedBuf struct{ b []byte }

func (c *cappedBuf) Write(p []byte) (int, error) {
	if room := 1<<16 - len(c.b); room > 0 {
		c.b = append(c.b, p[:min(room, len(p))]...)
	}
	return len(p), nil
}

// valid keeps what is printed UTF-8.
func valid(s string) string { return strings.ToValidUTF8(s, "\uFFFD") }
