package main

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/vh"
)

var day = time.Date(2024, 3, 31, 0, 0, 0, 0, time.UTC)

// c22 connects clients of several kinds while producers announce spots, and compares what every client received.
func c22(r *vh.Run) {
	r.Rule("a case is a server with 1 to 4 producers announcing 30 to 120 unique spots (random reporter, frequency, comment, time) while clients connect before and between, type, half-close, disconnect and reset; every client that reads must have received a gapless part of one common order of all spots; distinct: number of clients of each kind and producers, and the interleaving (order of spots)")
	n := r.N(160, 4000)
	if raceStage() {
		n = r.N(64, 1000)
	}
	r.Parallel(64, n, func(i int) {
		r.Case(fmt.Sprintf("spots/%d", i), func(c *vh.C) { c22Case(c) })
	})
	r.Parallel(16, r.N(12, 200), func(i int) {
		r.Case(fmt.Sprintf("many/%d", i), func(c *vh.C) { c22Many(c) })
	})
}

type history struct {
	clock   atomic.Int64
	mu      sync.Mutex
	spots   []*aSpot
	began   []*aSpot
	counter int
}

func (h *history) add(c *vh.C, mycall string) *aSpot {
	h.counter++
	f := float64(c.Intn(50000000)) + 100000
	if c.Intn(10) == 0 {
		f = float64(c.Intn(1000000)) / 7
	}
	return &aSpot{call: uniqueCall(h.counter), frequency: f, msg: randomComment(c, 40), time: day.Add(time.Duration(c.Intn(86400)) * time.Second)}
}

func c22Case(c *vh.C) {
	mycall := randomReporter(c)
	version := fmt.Sprintf("%d.%d.%d", c.Intn(10), c.Intn(10), c.Intn(100))
	s, address := startServer(c, mycall, version)
	defer s.Stop()

	h := &history{}
	var clients []*client
	ref := connect(c, address, "reference", true)
	defer ref.conn.Close()
	ref.awaitGreeting(c)
	if !strings.HasPrefix(ref.text(), "SDRainer Version "+version) {
		c.Failf("the greeting does not show the version: %q", ref.text())
	}
	early := c.Intn(6)
	for i := 0; i < early; i++ {
		k := connect(c, address, fmt.Sprintf("early%d", i), true)
		defer k.conn.Close()
		k.awaitGreeting(c)
		clients = append(clients, k)
	}

	// producers announce their spots as soon as they are allowed to
	producers := 1 + c.Intn(4)
	total := 30 + c.Intn(90)
	lists := make([][]*aSpot, producers)
	var all []*aSpot
	for i := 0; i < total; i++ {
		p := c.Intn(producers)
		spot := h.add(c, mycall)
		lists[p] = append(lists[p], spot)
		all = append(all, spot)
	}
	var issued atomic.Int64
	var limit atomic.Int64
	var wg sync.WaitGroup
	stop := make(chan struct{})
	defer close(stop)
	var tokens atomic.Int64
	producersDone := make(chan any, 1)
	for p := range lists {
		wg.Add(1)
		go func(list []*aSpot) {
			defer wg.Done()
			for _, spot := range list {
				for {
					n := tokens.Add(1)
					if n <= limit.Load() {
						break
					}
					tokens.Add(-1)
					select {
					case <-stop:
						return
					case <-time.After(time.Millisecond):
					}
				}
				begin := h.clock.Add(1)
				issued.Add(1)
				s.Spot(spot.call, spot.frequency, spot.msg, spot.time)
				end := h.clock.Add(1)
				h.mu.Lock()
				spot.begin, spot.end = begin, end
				h.spots = append(h.spots, spot)
				h.mu.Unlock()
			}
		}(lists[p])
	}
	go func() { wg.Wait(); producersDone <- nil }()

	type join struct {
		k             *client
		before, after int64
		quiet         bool
		last          int
	}
	var joins []join
	kinds := map[string]int{}
	typed := map[*client][]string{}
	for step := 0; limit.Load() < int64(total); step++ {
		limit.Add(int64(1 + c.Intn(12)))
		if limit.Load() > int64(total) {
			limit.Store(int64(total))
		}
		quiet := c.Intn(2) == 0
		if quiet {
			// everything announced so far is delivered before the next step
			want := int(limit.Load())
			c.Reach(func() bool { return len(ref.lines()) >= want }, func() any { return ref.text() },
				"the reference client received only a part of %d spots", want)
		}
		kind := c.Intn(8)
		switch kind {
		case 0, 1: // a late client
			before := h.clock.Add(1)
			last := len(ref.lines())
			k := connect(c, address, fmt.Sprintf("late%d", step), true)
			defer k.conn.Close()
			k.awaitGreeting(c)
			joins = append(joins, join{k, before, h.clock.Add(1), quiet, last})
			kinds["late"]++
		case 2: // someone types
			if len(clients) > 0 {
				k := clients[c.Intn(len(clients))]
				text := []string{"DL0ABC\n", "dl1abc\r\n", "\n", "sh/dx\r", "x"}[c.Intn(5)]
				k.conn.Write([]byte(text))
				typed[k] = append(typed[k], text)
				kinds["type"]++
			}
		case 3: // someone leaves
			if len(clients) > 0 {
				j := c.Intn(len(clients))
				k := clients[j]
				k.ended = true
				if c.Intn(2) == 0 {
					k.reset()
				} else {
					k.conn.Close()
				}
				joins = append(joins, join{k: k, before: -1, after: -1})
				clients = append(clients[:j], clients[j+1:]...)
				kinds["leave"]++
			}
		case 4: // someone connects and leaves at once
			k := connect(c, address, "visitor", true)
			switch c.Intn(3) {
			case 0:
				k.reset()
			case 1:
				k.conn.Close()
			case 2:
				k.awaitGreeting(c)
				k.reset()
			}
			kinds["visit"]++
		case 5: // someone has nothing more to say, but still reads
			if len(clients) > 0 {
				clients[c.Intn(len(clients))].conn.CloseWrite()
				kinds["half-close"]++
			}
		case 6:
			time.Sleep(time.Duration(c.Intn(3)) * time.Millisecond)
		}
	}
	c.Await("announcing spots", producersDone)
	for _, k := range append([]*client{ref}, clients...) {
		c.Reach(func() bool { return len(k.lines()) >= total }, func() any { return k.text() }, "client %s did not receive all %d spots", k.name, total)
	}
	order := ref.lines()
	byCall := map[string]*aSpot{}
	for _, spot := range all {
		byCall[spot.call] = spot
	}
	position := map[string]int{} // callsign -> position in the common order
	for i, line := range order {
		m := reLine.FindStringSubmatch(line)
		if m == nil || byCall[m[3]] == nil {
			c.FailWith(order, "the line %q is not one of the announced spots", line)
			c.Abort()
		}
		spot := byCall[m[3]]
		if _, ok := position[spot.call]; ok {
			c.FailWith(order, "the spot of %s was delivered twice", spot.call)
			c.Abort()
		}
		position[spot.call] = i
		if err := checkLine(line, mycall, *spot); err != nil {
			c.FailWith(nil, "spot %s: %v", spot, err)
			c.Abort()
		}
	}
	if len(order) != total {
		c.FailWith(order, "%d lines for %d spots", len(order), total)
		c.Abort()
	}
	// the order of the lines respects the order of the calls
	maxBegin, first := int64(0), ""
	for _, line := range order {
		spot := byCall[reLine.FindStringSubmatch(line)[3]]
		if spot.end < maxBegin {
			c.FailWith(order, "the spot of %s was announced before the spot of %s, but delivered after it", spot.call, first)
			c.Abort()
		}
		if spot.begin > maxBegin {
			maxBegin, first = spot.begin, spot.call
		}
	}
	joined := strings.Join(order, "\n") + "\n"
	for _, k := range clients {
		if got := strings.Join(k.lines(), "\n") + "\n"; got != joined {
			c.FailWith([]string{joined, got}, "client %s received other lines than the reference client", k.name)
			c.Abort()
		}
	}
	for _, j := range joins {
		if !j.k.ended {
			c.Reach(func() bool {
				l := j.k.lines()
				return len(l) > 0 && l[len(l)-1] == order[total-1] || j.after > maxBegin
			},
				func() any { return []string{j.k.text(), joined} }, "client %s did not receive the last spot", j.k.name)
		}
		lines := j.k.lines()
		start := 0
		if len(lines) > 0 {
			for start < total && order[start] != lines[0] {
				start++
			}
		}
		for i := range lines {
			if start+i >= total || order[start+i] != lines[i] {
				c.FailWith([]any{order, lines}, "client %s received line %d out of sequence", j.k.name, i)
				c.Abort()
			}
		}
		if j.k.ended {
			if len(lines) > 0 && start != 0 {
				c.FailWith([]any{order, lines}, "client %s missed the first spots", j.k.name)
			}
			c.Count("clients that left", 1)
			continue
		}
		// everything called after the greeting is there, nothing delivered before the connection
		due := total
		for i, line := range order {
			if byCall[reLine.FindStringSubmatch(line)[3]].begin > j.after {
				due = i
				break
			}
		}
		if len(lines) == 0 {
			start = total
		}
		if start > due {
			c.FailWith([]any{order, lines}, "client %s is greeted, but spot %d is missing", j.k.name, due)
			c.Abort()
		}
		if start < j.last {
			c.FailWith([]any{order, lines}, "client %s received spot %d that was delivered before it connected", j.k.name, start)
			c.Abort()
		}
		c.Count("late clients", 1)
		if j.quiet {
			c.Count("late clients without pending spots", 1)
		}
	}
	for k, texts := range typed {
		_ = k
		c.Count("inputs", len(texts))
	}
	c.Count("spots", total)
	c.Count("clients", 1+len(clients)+len(joins))
	c.Count("lines compared", total*(1+len(clients)))
	c.Key(fmt.Sprint(producers, early, total, kinds, joined))
	c.Sample(map[string]any{"producers": producers, "spots": total, "early clients": early, "events": kinds, "last line": order[total-1]})
}

// c22Many connects many clients, of which some leave between two spots at all positions of the list.
func c22Many(c *vh.C) {
	s, address := startServer(c, "DL0ABC-#", "many")
	defer s.Stop()
	n := 10 + c.Intn(60)
	var clients []*client
	for i := 0; i < n; i++ {
		k := connect(c, address, fmt.Sprint(i), true)
		defer k.conn.Close()
		clients = append(clients, k)
	}
	for _, k := range clients {
		k.awaitGreeting(c)
	}
	h := &history{}
	count, gone := 0, 0
	var expected []string
	for round := 0; round < 8; round++ {
		for i := 0; i < 1+c.Intn(4); i++ {
			spot := h.add(c, "")
			c.Within("Spot", func() { s.Spot(spot.call, spot.frequency, spot.msg, spot.time) })
			expected = append(expected, spot.call)
			count++
		}
		for _, k := range clients {
			c.Reach(func() bool { return len(k.lines()) >= count }, func() any { return k.text() }, "client %s of %d (%d gone) received only %d of %d spots", k.name, n, gone, len(k.lines()), count)
			for i, line := range k.lines() {
				if m := reLine.FindStringSubmatch(line); i >= len(expected) || m == nil || m[3] != expected[i] {
					c.FailWith(k.lines(), "client %s of %d: line %d is %q", k.name, n, i, line)
					c.Abort()
				}
			}
		}
		c.Count("lines compared", count*len(clients))
		for i := c.Intn(1 + len(clients)/3); i > 0; i-- {
			j := c.Intn(len(clients))
			if c.Intn(2) == 0 {
				clients[j].reset()
			} else {
				clients[j].conn.Close()
			}
			clients = append(clients[:j:j], clients[j+1:]...)
			gone++
		}
		if round == 6 && c.Intn(2) == 0 {
			// everybody leaves, and somebody comes back
			for _, k := range clients {
				k.reset()
			}
			clients = nil
			for i := 0; i < 2+c.Intn(3); i++ {
				spot := h.add(c, "")
				s.Spot(spot.call, spot.frequency, spot.msg, spot.time)
			}
			k := connect(c, address, "again", true)
			defer k.conn.Close()
			k.awaitGreeting(c)
			expected, count = nil, 0
			s.Spot("SY0NC", 7e6, "", day)
			c.Reach(func() bool { return k.sees("SY0NC") }, func() any { return k.text() }, "a client that connects after all others left receives nothing")
			for _, line := range k.lines() {
				expected = append(expected, reLine.FindStringSubmatch(line)[3])
			}
			if len(expected) > 4 || expected[len(expected)-1] != "SY0NC" {
				c.FailWith(k.lines(), "a client that connects after all others left receives other spots")
			}
			count = len(expected)
			clients = append(clients, k)
		}
	}
	c.Count("spots", count)
	c.Count("clients", n)
	c.Key(fmt.Sprint(n, gone, count))
}
