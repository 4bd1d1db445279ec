package main

// Bursts: a history of which one step, or two alternating, are repeated many times; it begins and goes on
// freely. The steps of the history and what is right after each are the scenario's own.

type burstState struct {
	tier         string
	simple       bool
	pre          int // steps before
	period, reps int
	free         int // steps after
	rec          [][]int
	from         int
	playing      bool
	cur, at      int
}

// more tells a history of up to depth steps whether there is a step number d.
func (x *X) more(d, depth int) bool {
	b := x.burst
	if b == nil {
		return d < depth
	}
	if d == 0 {
		shapes := [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 1, 1}}
		if b.simple {
			shapes = [][3]int{{0, 1, 1}}
		} else if b.tier == "thorough" {
			shapes = [][3]int{{0, 1, 3}, {0, 2, 2}, {1, 1, 2}}
		}
		s := shapes[x.Choose("burst shape", len(shapes))]
		b.pre, b.period, b.free = s[0], s[1], s[2]
		reps := []int{130}
		if b.tier == "thorough" {
			reps = []int{260, 33}
		}
		b.reps = reps[x.Choose("burst length", len(reps))]
	}
	if d == b.pre {
		b.from = len(x.pts)
		return true
	}
	if d < b.pre {
		return true
	}
	if d <= b.pre+b.period { // a step was recorded
		var l []int
		for _, p := range x.pts[b.from:] {
			l = append(l, p.c)
		}
		b.rec = append(b.rec, l)
		b.from = len(x.pts)
		if d < b.pre+b.period {
			return true
		}
		x.checkUnit()
	}
	if len(x.fails) > 0 {
		return false
	}
	b.playing = d < b.pre+b.reps
	b.cur, b.at = (d-b.pre)%b.period, 0
	return d < b.pre+b.reps+b.free
}

// scenarios lists the check's scenarios with the bursts of its histories.
func (c *Check) scenarios(tier string) []*Scenario {
	l := c.Scenarios(tier)
	var out []*Scenario
	for _, sc := range l {
		sc := sc
		if !sc.Loop {
			continue
		}
		run := sc.Run
		out = append(out, &Scenario{Name: sc.Name + "+bursts", Unit: sc.Unit, Run: func(x *X) {
			x.burst = &burstState{tier: tier, simple: sc.Simple}
			run(x)
			x.burst.playing = false
		}})
	}
	return append(l, out...)
}
