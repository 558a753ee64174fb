package main

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/ftl/sdrainer/telnet"

	"verif/vh"
)

// c24 stalls and resets clients, and stops the server at any time.
func c24(r *vh.Run) {
	r.Rule("a case is a server with healthy clients and clients that never read (their network path is filled with long comments), or reset their connection between the spots; or a server that is stopped by several goroutines while others spot and connect; the healthy clients must have received every spot, every call must return, all clients must be disconnected by Stop, and a new server must be able to use the address at once; distinct: the scenario")
	n, m, o := r.N(60, 1200), r.N(100, 3000), r.N(6, 60)
	if raceStage() {
		n, m, o = r.N(24, 300), r.N(60, 1000), r.N(2, 16)
	}
	r.Parallel(24, n, func(i int) {
		r.Case(fmt.Sprintf("stalled/%d", i), func(c *vh.C) { c24Stalled(c, false) })
	})
	r.Parallel(8, o, func(i int) {
		r.Case(fmt.Sprintf("overflow/%d", i), func(c *vh.C) { c24Stalled(c, true) })
	})
	r.Parallel(24, m, func(i int) {
		r.Case(fmt.Sprintf("stop/%d", i), func(c *vh.C) { c24Stop(c) })
	})
}

// drained reads a connection that was not read before until its end.
func (k *client) drain() { go k.read() }

func checkStopped(c *vh.C, s *telnet.Server, address string, clients []*client) {
	for _, k := range clients {
		c.Reach(k.closed, func() any { return tail(k.text()) }, "client %s is still connected after the server was stopped", k.name)
	}
	c.Count("clients disconnected by Stop", len(clients))
}

// reuse starts another server at the same address, which has to work.
func reuse(c *vh.C, address string) *telnet.Server {
	s, err := telnet.NewServer(address, "NEW", "2")
	if err != nil {
		c.Failf("the address cannot be used again after Stop returned: %v", err)
		c.Abort()
	}
	return s
}

func tail(s string) string {
	if len(s) > 500 {
		return "..." + s[len(s)-500:]
	}
	return s
}

func c24Stalled(c *vh.C, overflow bool) {
	s, address := startServer(c, "DL0ABC-#", "c24")
	var stopped bool
	defer func() {
		if !stopped {
			go s.Stop()
		}
	}()
	var healthy, stalled []*client
	for i := 1 + c.Intn(3); i > 0; i-- {
		k := connect(c, address, fmt.Sprint("healthy", i), true)
		defer k.conn.Close()
		healthy = append(healthy, k)
	}
	for i := 1 + c.Intn(3); i > 0; i-- {
		k := connect(c, address, fmt.Sprint("stalled", i), false)
		defer k.conn.Close()
		stalled = append(stalled, k)
	}
	if c.Intn(2) == 0 {
		k := connect(c, address, "last", true)
		defer k.conn.Close()
		healthy = append(healthy, k)
	}
	for _, k := range healthy {
		k.awaitGreeting(c)
	}
	connect(c, address, "barrier", true).awaitGreeting(c) // connections are accepted in order
	size, total := 20000+c.Intn(300000), 12+c.Intn(12)
	resets := 0
	if overflow {
		size, total = 20000, 1500
	}
	long := strings.Repeat("0123456789 ", size/11)
	producers := 1 + c.Intn(3)
	if overflow {
		// the server delivers one spot for every connection it accepts, or every 100 ms
		quit := make(chan struct{})
		defer close(quit)
		for i := 0; i < 2; i++ {
			go func() {
				for {
					select {
					case <-quit:
						return
					default:
					}
					if k, err := dial(address, "visitor", true); err == nil {
						k.reset()
					}
				}
			}()
		}
	}
	h := &history{}
	count := 0
	for count < total {
		burst := 1 + c.Intn(6)
		if overflow {
			burst = 25
		}
		var wg sync.WaitGroup
		done := make(chan any, 1)
		for p := 0; p < producers; p++ {
			var list []*aSpot
			for i := 0; i < burst && (count < total || i == 0); i++ {
				spot := h.add(c, "")
				spot.msg = long
				if overflow && count > 300 {
					spot.msg = "short"
				}
				list = append(list, spot)
				count++
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, spot := range list {
					s.Spot(spot.call, spot.frequency, spot.msg, spot.time)
				}
			}()
		}
		go func() { wg.Wait(); done <- nil }()
		c.Await("Spot with a stalled client", done)
		for _, k := range healthy {
			want := count
			c.Reach(func() bool { return k.count("z\n") >= want }, func() any { return tail(k.text()) },
				"client %s received only %d of %d spots beside %d stalled clients", k.name, k.count("DX de "), want, len(stalled))
		}
		if c.Intn(4) == 0 && len(stalled) > 1 {
			stalled[0].reset()
			stalled = stalled[1:]
			resets++
		}
		if c.Intn(4) == 0 {
			k := connect(c, address, "new", true)
			defer k.conn.Close()
			k.awaitGreeting(c) // a new client is accepted, too
			k.reset()
		}
	}
	for _, k := range healthy {
		lines := k.lines()
		seen := map[string]bool{}
		for _, line := range lines {
			f := strings.Fields(line)
			if len(f) < 5 || seen[f[4]] {
				c.Failf("client %s: bad or repeated line %q", k.name, tail(line))
				c.Abort()
			}
			seen[f[4]] = true
		}
		if len(seen) != count {
			c.Failf("client %s received %d different spots instead of %d", k.name, len(seen), count)
		}
	}
	c.Within("Stop with a stalled client", s.Stop)
	stopped = true
	for _, k := range stalled {
		k.drain()
	}
	checkStopped(c, s, address, append(healthy, stalled...))
	s2 := reuse(c, address)
	defer s2.Stop()
	k := connect(c, address, "again", true)
	defer k.conn.Close()
	k.awaitGreeting(c)
	c.Within("Stop and Spot on a stopped server", func() {
		s.Stop()
		for i := 0; i < 5; i++ {
			s.Spot(fmt.Sprint("AFTER", i), 7e6, "", day)
		}
		s.SetSilencePeriod(time.Second)
		s.Stop()
	})
	c.Count("spots", count)
	c.Count("bytes per healthy client", count*size)
	c.Count("stalled clients", len(stalled)+resets)
	c.Key(fmt.Sprint(size, count, len(healthy), len(stalled), producers, resets))
	c.Sample(map[string]any{"comment size": size, "spots": count, "healthy": len(healthy), "stalled": len(stalled), "producers": producers})
}

// c24Stop stops the server while everything else goes on, several times at the same address.
func c24Stop(c *vh.C) {
	s, address := startServer(c, "DL0ABC-#", "c24")
	rounds := 1 + c.Intn(3)
	key := fmt.Sprint(rounds)
	h := &history{}
	for round := 0; round < rounds; round++ {
		var clients []*client
		for i := c.Intn(4); i > 0; i-- {
			k := connect(c, address, fmt.Sprint("healthy", i), true)
			defer k.conn.Close()
			clients = append(clients, k)
			if c.Intn(3) > 0 {
				k.awaitGreeting(c)
			}
		}
		var stalled []*client
		for i := c.Intn(2); i > 0; i-- {
			k := connect(c, address, fmt.Sprint("stalled", i), false)
			defer k.conn.Close()
			stalled = append(stalled, k)
		}
		msg := strings.Repeat("x", []int{0, 10, 100000}[c.Intn(3)])
		var wg sync.WaitGroup
		stop := make(chan struct{})
		producers := c.Intn(4)
		for p := 0; p < producers; p++ {
			var list []*aSpot
			for i := 0; i < 400; i++ {
				list = append(list, h.add(c, ""))
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, spot := range list {
					s.Spot(spot.call, spot.frequency, msg, spot.time)
					select {
					case <-stop:
						return
					default:
					}
				}
			}()
		}
		// somebody connects, types and leaves all the time
		visitors := c.Intn(2)
		for v := 0; v < visitors; v++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 50; i++ {
					select {
					case <-stop:
						return
					default:
					}
					if k, err := dial(address, "visitor", true); err == nil {
						k.conn.Write([]byte("DL1ABC\nabc\n"))
						k.reset()
					}
				}
			}()
		}
		time.Sleep(time.Duration(c.Intn(20000)) * time.Microsecond)
		stoppers := 1 + c.Intn(3)
		var sg sync.WaitGroup
		for i := 0; i < stoppers; i++ {
			sg.Add(1)
			go func() { defer sg.Done(); s.Stop() }()
		}
		done := make(chan any, 1)
		go func() { sg.Wait(); done <- nil }()
		c.Await("Stop", done)
		// the port is free as soon as Stop returned
		s2 := reuse(c, address)
		for _, k := range stalled {
			k.drain()
		}
		checkStopped(c, s, address, append(clients, stalled...))
		c.Within("Spot on a stopped server", func() { s.Spot("AFTER", 7e6, "", day); s.Spot("AFTER2", 7e6, "", day) })
		close(stop)
		go func() { wg.Wait(); done <- nil }()
		c.Await("Spot and connect during Stop", done)
		key += fmt.Sprint(" ", len(clients), len(stalled), producers, visitors, stoppers, len(msg))
		s = s2
	}
	k := connect(c, address, "last", true)
	defer k.conn.Close()
	k.awaitGreeting(c)
	spot := h.add(c, "")
	c.Within("Spot", func() { s.Spot(spot.call, 7e6, "", day) })
	c.Reach(func() bool { return k.sees(spot.call) }, func() any { return k.text() }, "the server that uses the address again does not deliver")
	c.Within("Stop", s.Stop)
	c.Count("stops", rounds+1)
	c.Key(key)
}
