package mc

import "fmt"

// Choices is what was chosen so far.
func (c *C) Choices() []int { return c.vec }

// Replaying tells whether one execution is wanted.
func (t *T) Replaying() bool { return t.replay != nil }

// Violated tells whether a violation was found.
func (t *T) Violated() bool { return t.viol != nil }

// Violate reports a violation found outside of executions.
func (t *T) Violate(scenario, what string) {
	t.replayed = true
	t.viol = &Violation{Property: t.ID, Tier: t.Tier, Scenario: scenario, What: what}
}

// Take takes over a violation another process found.
func (t *T) Take(v *Violation) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.viol == nil || less(v.Choices, t.viol.Choices) {
		t.viol = v
	}
}

// Merge adds what another process explored, from its evidence.
func (t *T) Merge(ev map[string]any) {
	cov, _ := ev["coverage"].(map[string]any)
	num := func(m map[string]any, k string) int64 { v, _ := m[k].(float64); return int64(v) }
	t.nstates.Add(num(cov, "states"))
	l, _ := cov["scenarios"].([]any)
	for _, x := range l {
		m, _ := x.(map[string]any)
		var sc *scenario
		for _, s := range t.scs {
			if s.name == m["name"] {
				sc = s
			}
		}
		if sc == nil {
			sc = &scenario{name: fmt.Sprint(m["name"]), bound: fmt.Sprint(m["bound"]), outcomes: map[string]int64{}, complete: true, budget: int(num(m, "deviation_bound"))}
			t.scs = append(t.scs, sc)
		}
		sc.execs.Add(num(m, "executions"))
		sc.steps.Add(num(m, "impl_steps"))
		sc.maxDepth = max(sc.maxDepth, int(num(m, "max_choices")))
		w, _ := m["wall_s"].(float64)
		sc.wall = max(sc.wall, w)
		ok, _ := m["complete"].(bool)
		sc.complete = sc.complete && ok
		o, _ := m["outcomes"].(map[string]any)
		for k := range o {
			sc.outcomes[k] += num(o, k)
		}
	}
	if s, _ := cov["samples"].([]any); len(s) > 0 && len(t.shardSamples) < 6 {
		t.shardSamples = append(t.shardSamples, s[0])
	}
	t.nondet += int(num(cov, "sample_replays_that_differed"))
}
