package main

import (
	"fmt"
	"math"
	"sync"
	"time"

	"verif/vh"
)

// c23 compares the announced spots with a model of the silence period.
func c23(r *vh.Run) {
	r.Rule("a case is a server and a sequence of 100 to 300 spots of few callsigns on few, close frequencies with own, never decreasing timestamps per callsign and frequency (steps of 0, short, exactly, just below, just above, and far above the silence period), with changes of the silence period in between, or rounds of concurrent spots of the same station; the received lines are compared with a model; distinct: the sequence of decisions")
	n := r.N(200, 4000)
	m := r.N(60, 1000)
	if raceStage() {
		n, m = r.N(20, 200), r.N(60, 600)
	}
	r.Parallel(64, n, func(i int) {
		r.Case(fmt.Sprintf("model/%d", i), func(c *vh.C) { c23Model(c) })
	})
	r.Parallel(64, m, func(i int) {
		r.Case(fmt.Sprintf("concurrent/%d", i), func(c *vh.C) { c23Concurrent(c) })
	})
}

func c23Model(c *vh.C) {
	s, address := startServer(c, "DL0ABC-#", "c23")
	defer s.Stop()
	k := connect(c, address, "client", true)
	defer k.conn.Close()
	k.awaitGreeting(c)

	type key struct {
		call string
		kHz  int
	}
	period := 4 * time.Minute
	if c.Intn(3) > 0 {
		period = time.Duration(1+c.Intn(1000)) * time.Second
		s.SetSilencePeriod(period)
	}
	calls := []string{"W1AW", "DL1ABC", "DL1AB", "DL1ABC/P", "w1aw", "K1A", "K1A7", "R7"}[:2+c.Intn(7)]
	base := float64(c.Intn(30000)+1000) * 1000
	now := map[key]time.Time{}
	last := map[key]time.Time{}
	var expected []aSpot
	var decisions, ops []string
	steps := 100 + c.Intn(200)
	for i := 0; i < steps; i++ {
		if c.Intn(25) == 0 {
			switch c.Intn(5) {
			case 0:
				period = 0
			case 1:
				period = time.Duration(c.Intn(100)) * time.Millisecond
			case 2:
				period = time.Duration(c.Intn(3600*24)) * time.Second
			default:
				period = time.Duration(1+c.Intn(1000)) * time.Second
			}
			s.SetSilencePeriod(period)
			ops = append(ops, fmt.Sprint("period ", period))
		}
		f := base + float64(c.Intn(3000)) - 1500
		if c.Intn(4) == 0 {
			f += c.Float64()
		}
		if rest := math.Mod(f, 1000); math.Abs(rest-500) < 0.01 {
			f += 1
		}
		spot := aSpot{call: calls[c.Intn(len(calls))], frequency: f, msg: fmt.Sprint("n", i)}
		kk := key{spot.call, int(math.Floor(f/1000 + 0.5))}
		t, ok := now[kk]
		if !ok {
			t = day.Add(time.Duration(c.Intn(86400)) * time.Second)
		}
		var step time.Duration
		at, announced := last[kk]
		switch c.Intn(8) {
		case 0:
		case 1, 2:
			step = time.Duration(c.Int63n(int64(period)/3 + 1))
		case 3:
			step = period - time.Nanosecond
		case 4, 5, 6:
			// at a certain distance from the last announcement
			if announced {
				d := []time.Duration{0, -1, 1, -time.Second, time.Second}[c.Intn(5)]
				step = at.Add(period + d).Sub(t)
			}
		case 7:
			step = period * time.Duration(1+c.Intn(3))
		}
		if step < 0 {
			step = 0
		}
		t = t.Add(step)
		now[kk] = t
		spot.time = t
		expect := !announced || t.Sub(at) > period
		c.Within("Spot", func() { s.Spot(spot.call, spot.frequency, spot.msg, spot.time) })
		ops = append(ops, fmt.Sprintf("%v (%v after the last announcement): %v", spot, t.Sub(at), expect))
		if expect {
			last[kk] = t
			expected = append(expected, spot)
			decisions = append(decisions, "+")
		} else {
			decisions = append(decisions, "-")
		}
	}
	s.Spot("SY0NC", 1e6, "", day)
	c.Reach(func() bool { return k.sees("SY0NC") }, func() any { return k.text() }, "the last spot was not delivered")
	lines := k.lines()
	lines = lines[:len(lines)-1]
	for i := 0; i < len(lines) || i < len(expected); i++ {
		switch {
		case i >= len(lines):
			c.FailWith(ops, "spot %v was not announced", expected[i])
		case i >= len(expected):
			c.FailWith(ops, "%q was announced, but should not", lines[i])
		case checkLine(lines[i], "DL0ABC-#", expected[i]) != nil:
			c.FailWith(ops, "next announced spot should be %v, but is %q", expected[i], lines[i])
		default:
			continue
		}
		c.Abort()
	}
	c.Eval(steps)
	c.Count("spots announced", len(expected))
	c.Count("spots suppressed", steps-len(expected))
	c.Key(fmt.Sprint(calls, decisions))
	if len(ops) > 8 {
		ops = ops[:8]
	}
	c.Sample(ops)
}

func c23Concurrent(c *vh.C) {
	s, address := startServer(c, "DL0ABC-#", "c23")
	defer s.Stop()
	k := connect(c, address, "client", true)
	defer k.conn.Close()
	k.awaitGreeting(c)
	period := time.Duration(10+c.Intn(1000)) * time.Second
	s.SetSilencePeriod(period)
	workers := 2 + c.Intn(6)
	t := day
	rounds := 15
	var pattern []string
	for round := 0; round < rounds; round++ {
		stations := 1 + c.Intn(3)
		spots := make([]aSpot, stations)
		for i := range spots {
			spots[i] = aSpot{call: fmt.Sprintf("K%dA", i), frequency: 7010000 + float64(c.Intn(3)*1000), msg: fmt.Sprint("r", round)}
			for j := 0; j < i; j++ {
				if spots[j].call == spots[i].call {
					spots[i].call += "X"
				}
			}
		}
		jitter := make([][]float64, workers)
		reorder := make([][]int, workers)
		for w := range jitter {
			reorder[w] = c.Perm(stations)
			for range spots {
				jitter[w] = append(jitter[w], float64(c.Intn(900)-450))
			}
		}
		changePeriod := c.Intn(3) == 0
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-start
				for _, i := range reorder[w] {
					s.Spot(spots[i].call, spots[i].frequency+jitter[w][i], spots[i].msg, t)
				}
			}(w)
		}
		if changePeriod {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; s.SetSilencePeriod(period + time.Second) }()
		}
		c.Within("concurrent spots", func() { close(start); wg.Wait() })
		s.Spot("SY0NC", 1e6, fmt.Sprint("end", round), t)
		end := fmt.Sprintf("end%d ", round)
		c.Reach(func() bool { return k.sees(end) }, func() any { return k.text() }, "the last spot of round %d was not delivered", round)
		counts := map[string]int{}
		for _, line := range k.lines() {
			m := reLine.FindStringSubmatch(line)
			if m == nil {
				c.FailWith(k.text(), "bad line %q", line)
				c.Abort()
			}
			if m[4] == fmt.Sprint("r", round) {
				counts[m[3]]++
			}
		}
		for _, spot := range spots {
			if counts[spot.call] != 1 {
				c.FailWith(k.lines(), "round %d: %d announcements of %s for %d concurrent spots", round, counts[spot.call], spot.call, workers)
				c.Abort()
			}
		}
		pattern = append(pattern, fmt.Sprint(stations, counts))
		// far enough that every station is announced again
		t = t.Add(period + time.Duration(2+c.Intn(5))*time.Second)
		c.Eval(workers * stations)
		c.Count("concurrent spots", workers*stations)
	}
	c.Count("rounds", rounds)
	c.Key(fmt.Sprint(workers, pattern, period))
}
