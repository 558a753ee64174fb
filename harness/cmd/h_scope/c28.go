package main

import (
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/ftl/sdrainer/scope"

	"verif/vh"
)

// c28 starts, stops and feeds the scope in all orders.
func c28(r *vh.Run) {
	r.Rule("a case is a sequence of start, stop, show, connect, reconnect and occupy operations on one scope with a fixed address, checked step by step; or several goroutines that start, stop, show, query and connect concurrently, after which the scope has to be usable; distinct: the sequence of operations, or the outcome of the concurrent calls")
	n, m, o := r.N(600, 15000), r.N(800, 20000), r.N(400, 6000)
	if raceStage() {
		n, m, o = r.N(100, 2000), r.N(400, 8000), r.N(100, 1000)
	}
	r.Parallel(16, n, func(i int) {
		r.Case(fmt.Sprintf("sequence/%d", i), func(c *vh.C) { c28Sequence(c) })
	})
	r.Parallel(8, m, func(i int) {
		r.Case(fmt.Sprintf("concurrent/%d", i), func(c *vh.C) { c28Concurrent(c) })
	})
	r.Parallel(8, o, func(i int) {
		r.Case(fmt.Sprintf("restart/%d", i), func(c *vh.C) { c28Restart(c) })
	})
}

func show(s *scope.ScopeServer, i int) {
	if i%2 == 0 {
		s.ShowTimeFrame(&scope.TimeFrame{Frame: scope.Frame{Stream: "show"}, Values: map[scope.ChannelID]float64{"n": 1}})
	} else {
		s.ShowSpectralFrame(&scope.SpectralFrame{Frame: scope.Frame{Stream: "show"}, Values: []float64{1, 2, 3}})
	}
}

// listening waits until the server listens.
func listening(c *vh.C, s *scope.ScopeServer, what string) {
	c.Reach(func() bool { return s.Active() && s.Addr() != nil }, nil, "%s: the scope does not become active", what)
}

func c28Sequence(c *vh.C) {
	address := freeAddress()
	s := scope.NewScopeServer(address)
	var sinks []*sink
	var occupant net.Listener
	defer func() {
		if occupant != nil {
			occupant.Close()
		}
		s.Stop()
		for _, k := range sinks {
			k.client.Close()
		}
	}()
	started := false
	var ops []string
	reused := scope.NewClient(address)
	var reusedSink *sink
	steps := 15 + c.Intn(25)
	for i := 0; i < steps; i++ {
		op := c.Intn(10)
		switch op {
		case 0, 1: // start
			if occupant != nil {
				continue
			}
			ops = append(ops, "start")
			var err error
			c.Within("Start", func() { err = s.Start() })
			if started {
				if err == nil {
					c.FailWith(ops, "starting a running scope is not refused")
					c.Abort()
				}
				continue
			}
			if err != nil {
				c.FailWith(ops, "a stopped scope cannot be started: %v", err)
				c.Abort()
			}
			started = true
			if c.Intn(2) == 0 {
				listening(c, s, strings.Join(ops, " "))
			}
		case 2, 3: // stop
			ops = append(ops, "stop")
			c.Within("Stop", s.Stop)
			if s.Active() {
				c.FailWith(ops, "a stopped scope is active")
				c.Abort()
			}
			for _, k := range sinks {
				c.Reach(k.isEnded, func() any { return ops }, "the stream of a client is not ended by Stop")
				k.client.Close()
			}
			if reusedSink != nil {
				c.Reach(reusedSink.isEnded, func() any { return ops }, "the stream of a client is not ended by Stop")
				reusedSink = nil
				reused.Close()
			}
			sinks = nil
			started = false
			if occupant != nil {
				continue
			}
			// the port is free
			l, err := net.Listen("tcp", address)
			if err != nil {
				c.FailWith(ops, "the address is not free after Stop: %v", err)
				c.Abort()
			}
			l.Close()
		case 4, 5: // show
			n := 1 + c.Intn(5)
			ops = append(ops, fmt.Sprint("show", n))
			c.Within("showing frames", func() {
				for j := 0; j < n; j++ {
					show(s, j)
				}
			})
		case 6: // connect
			if !started {
				continue
			}
			ops = append(ops, "connect")
			listening(c, s, strings.Join(ops, " "))
			k := openSink(c, address)
			sinks = append(sinks, k)
			var live []*sink
			for _, k := range sinks {
				if !k.isEnded() {
					live = append(live, k)
				}
			}
			syncAll(c, s, live...)
		case 7: // a client that is opened again after closing it
			if !started {
				continue
			}
			ops = append(ops, "reopen")
			listening(c, s, strings.Join(ops, " "))
			if reusedSink != nil {
				if err := reused.Close(); err != nil {
					c.FailWith(ops, "Close: %v", err)
				}
				old := reusedSink
				c.Reach(old.isEnded, func() any { return ops }, "closing a client does not end its stream")
				reusedSink = nil
				if _, _, err := reused.GetFrames(); err == nil {
					c.FailWith(ops, "a closed client provides frames")
				}
				reused.Close()
			}
			if err := reused.Open(); err != nil {
				c.FailWith(ops, "a closed client cannot be opened again: %v", err)
				c.Abort()
			}
			if err := reused.Open(); err == nil {
				c.FailWith(ops, "an open client can be opened once more")
			}
			reusedSink = &sink{client: reused, lastSync: -1}
			reusedSink.receive(c)
			syncAll(c, s, reusedSink)
		case 8: // occupied address
			if started {
				continue
			}
			if occupant == nil {
				ops = append(ops, "occupy")
				l, err := net.Listen("tcp", address)
				if err != nil {
					c.FailWith(ops, "the address is not free after Stop: %v", err)
					c.Abort()
				}
				occupant = l
				var startErr error
				c.Within("Start", func() { startErr = s.Start() })
				c.Within("showing frames", func() { show(s, 0); show(s, 1) })
				c.Reach(func() bool { return !s.Active() }, func() any { return ops }, "a scope that cannot listen stays active")
				c.Within("showing frames", func() { show(s, 0); show(s, 1) })
				_ = startErr
				if c.Intn(2) == 0 {
					c.Within("Stop", s.Stop)
				}
				c.Count("starts on an occupied address", 1)
			}
		case 9:
			if occupant != nil {
				ops = append(ops, "release")
				occupant.Close()
				occupant = nil
			}
		}
	}
	c.Eval(len(ops))
	c.Count("operations", len(ops))
	c.Key(strings.Join(ops, " "))
	c.Sample(ops)
}

// c28Restart starts and stops quickly.
func c28Restart(c *vh.C) {
	address := freeAddress()
	s := scope.NewScopeServer(address)
	defer s.Stop()
	rounds := 20
	key := ""
	for i := 0; i < rounds; i++ {
		if err := s.Start(); err != nil {
			c.FailWith(nil, "round %d: a stopped scope cannot be started: %v", i, err)
			c.Abort()
		}
		wait := c.Intn(400)
		key += fmt.Sprint(wait, " ")
		if wait > 100 {
			time.Sleep(time.Duration(wait-100) * time.Microsecond)
		}
		if wait > 390 {
			listening(c, s, "restart")
		}
		c.Within("Stop", s.Stop)
		if s.Active() {
			c.FailWith(nil, "round %d: a stopped scope is active", i)
			c.Abort()
		}
	}
	if err := s.Start(); err != nil {
		c.FailWith(nil, "a stopped scope cannot be started: %v", err)
		c.Abort()
	}
	listening(c, s, "after the last restart")
	k := openSink(c, address)
	defer k.client.Close()
	syncAll(c, s, k)
	c.Count("quick restarts", rounds)
	c.Key(key)
}

func c28Concurrent(c *vh.C) {
	address := freeAddress()
	s := scope.NewScopeServer(address)
	started := c.Intn(2) == 0
	var early *sink
	if started {
		if err := s.Start(); err != nil {
			c.FailWith(nil, "Start: %v", err)
			c.Abort()
		}
		if c.Intn(2) == 0 {
			listening(c, s, "start")
			early = openSink(c, address)
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	outcome := map[string]int{}
	note := func(what string) { mu.Lock(); outcome[what]++; mu.Unlock() }
	worker := func(n int, f func(i int)) {
		delays := make([]int, n)
		for i := range delays {
			delays[i] = c.Intn(300)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				f(i)
				if delays[i] > 150 {
					time.Sleep(time.Duration(delays[i]-150) * time.Microsecond)
				}
			}
		}()
	}
	workers := 3 + c.Intn(6)
	kinds := make([]int, workers)
	for w := range kinds {
		kinds[w] = c.Intn(6)
		switch kinds[w] {
		case 0:
			worker(10, func(int) {
				if s.Start() == nil {
					note("started")
				} else {
					note("start refused")
				}
			})
		case 1:
			worker(10, func(int) { s.Stop(); note("stopped") })
		case 2, 3:
			worker(60, func(i int) { show(s, i); note("shown") })
		case 4:
			worker(40, func(int) {
				if s.Active() {
					note("active")
				}
				if s.Addr() != nil {
					note("address")
				}
			})
		case 5:
			seeds := c.Int63()
			worker(3, func(i int) {
				client := scope.NewClient(address)
				if client.Open() != nil {
					return
				}
				times, spectral, err := client.GetFrames()
				if err == nil {
					note("connected")
					go func() {
						for range times {
						}
					}()
					go func() {
						for range spectral {
						}
					}()
				}
				if (seeds>>i)&1 == 0 {
					time.Sleep(time.Millisecond)
				}
				client.Close()
			})
		}
	}
	done := make(chan any, 1)
	go func() { wg.Wait(); done <- nil }()
	c.Await("concurrent use of the scope", done)
	c.Within("Stop", s.Stop)
	if s.Active() {
		c.FailWith(outcome, "a stopped scope is active")
		c.Abort()
	}
	if early != nil {
		c.Reach(early.isEnded, nil, "the stream of a client is not ended by Stop")
		early.client.Close()
	}
	// the scope is still usable
	c.Within("Start", func() {
		if err := s.Start(); err != nil {
			c.FailWith(outcome, "a stopped scope cannot be started: %v", err)
		}
	})
	listening(c, s, "after concurrent use")
	k := openSink(c, address)
	syncAll(c, s, k)
	c.Within("Stop", s.Stop)
	c.Reach(k.isEnded, nil, "the stream of a client is not ended by Stop")
	k.client.Close()
	for what, n := range outcome {
		c.Count("concurrent: "+what, n)
	}
	c.Key(fmt.Sprint(kinds, outcome))
}
