package main

import (
	"fmt"

	"github.com/ftl/sdrainer/dsp"

	"verif/vh"
)

// debounceModel follows the statement: the state changes with the n-th consecutive identical raw value. With a threshold
// of 0 or 1 this is the raw value itself.
type debounceModel struct {
	n     int
	state bool
	last  bool
	run   int
}

func (m *debounceModel) put(raw bool) bool {
	if m.run > 0 && raw == m.last {
		m.run++
	} else {
		m.run = 1
	}
	m.last = raw
	if m.run >= m.n {
		m.state = raw
	}
	return m.state
}

func c06(r *vh.Run) {
	length := r.N(14, 18)
	r.Rule("all raw sequences of length %d for the thresholds 0 to 6, and random long sequences with thresholds up to 60 and threshold changes between two runs, compared with a run-length model; distinct: (threshold, sequence) with at least one change of the output", length)
	for n := 0; n <= 6; n++ {
		r.Case(fmt.Sprintf("exhaustive/%d", n), func(c *vh.C) {
			changed := 0
			for bits := 0; bits < 1<<length; bits++ {
				d := dsp.NewBoolDebouncer(n)
				m := &debounceModel{n: n}
				any := false
				for i := 0; i < length; i++ {
					raw := bits>>i&1 == 1
					got, want := d.Debounce(raw), m.put(raw)
					any = any || want
					if got != want {
						c.Failf("threshold %d, raw sequence %0*b (from right), step %d: %v, expected %v", n, length, bits, i, got, want)
						return
					}
				}
				if any {
					changed++
					if changed <= 20000 {
						c.Key(fmt.Sprint(n, bits))
					}
				}
			}
			c.Eval(1<<length - 1)
			c.Count("exhaustive sequences", 1<<length)
			c.Count("exhaustive sequences with output", changed)
		})
	}
	r.Parallel(8, r.N(2000, 20000), func(i int) {
		r.Case(fmt.Sprintf("random/%d", i), func(c *vh.C) {
			n := 2 + c.Intn(59)
			if c.Intn(2) == 0 {
				n = 2 + c.Intn(5)
			}
			first := n
			if c.Intn(3) == 0 { // set after construction
				first = c.Intn(10)
			}
			d := dsp.NewBoolDebouncer(first)
			d.SetThreshold(n)
			m := &debounceModel{n: n}
			raw := false
			var history []string
			for run := 0; run < 60; run++ {
				if run > 0 && c.Intn(8) == 0 { // at a change of the raw value
					n = 2 + c.Intn(20)
					d.SetThreshold(n)
					m.n = n
					history = append(history, fmt.Sprintf("threshold %d", n))
				}
				if d.Threshold() != n {
					c.Failf("threshold %d, expected %d", d.Threshold(), n)
				}
				length := 1 + c.Intn(n+3)
				history = append(history, fmt.Sprintf("%v*%d", raw, length))
				for j := 0; j < length; j++ {
					if c.Intn(40) == 0 { // at any time
						n = c.Intn(20)
						d.SetThreshold(n)
						m.n = n
						history = append(history, fmt.Sprintf("threshold %d before %d", n, j))
					}
					got, want := d.Debounce(raw), m.put(raw)
					if got != want {
						c.FailWith(history, "threshold %d: %v, expected %v", n, got, want)
						return
					}
				}
				raw = !raw
			}
			c.Eval(1)
			c.Key(fmt.Sprint(history))
			c.Sample(history[:8])
		})
	})
}
