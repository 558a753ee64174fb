package main

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ftl/sdrainer/scope"

	"verif/vh"
)

// startScope starts a scope server and waits until it listens.
func startScope(c *vh.C, address string) *scope.ScopeServer {
	s := scope.NewScopeServer(address)
	if err := s.Start(); err != nil {
		c.FailWith(nil, "Start: %v", err)
		c.Abort()
	}
	c.Reach(func() bool { return s.Addr() != nil }, nil, "the scope server has no address")
	if !s.Active() {
		c.Failf("a started scope is not active")
	}
	return s
}

const syncStream = "sync"

// sink receives the frames of one client.
type sink struct {
	client   *scope.Client
	mu       sync.Mutex
	times    []*scope.TimeFrame
	spectral []*scope.SpectralFrame
	lastSync float64
	ended    bool
}

func (k *sink) get() (int, int, bool) {
	k.mu.Lock()
	defer k.mu.Unlock()
	return len(k.times), len(k.spectral), k.ended
}

func (k *sink) synced() float64 { k.mu.Lock(); defer k.mu.Unlock(); return k.lastSync }
func (k *sink) isEnded() bool   { k.mu.Lock(); defer k.mu.Unlock(); return k.ended }

func openSink(c *vh.C, address string) *sink {
	k := &sink{client: scope.NewClient(address), lastSync: -1}
	if err := k.client.Open(); err != nil {
		c.FailWith(nil, "Open: %v", err)
		c.Abort()
	}
	k.receive(c)
	return k
}

func (k *sink) receive(c *vh.C) {
	times, spectral, err := k.client.GetFrames()
	if err != nil {
		c.FailWith(nil, "GetFrames: %v", err)
		c.Abort()
	}
	go func() {
		for times != nil || spectral != nil {
			select {
			case f, ok := <-times:
				if !ok {
					times = nil
					continue
				}
				k.mu.Lock()
				if f.Stream == syncStream {
					k.lastSync = f.Values["n"]
				} else {
					k.times = append(k.times, f)
				}
				k.mu.Unlock()
			case f, ok := <-spectral:
				if !ok {
					spectral = nil
					continue
				}
				k.mu.Lock()
				k.spectral = append(k.spectral, f)
				k.mu.Unlock()
			}
		}
		k.mu.Lock()
		k.ended = true
		k.mu.Unlock()
	}()
}

var syncCounter atomic.Int64

// syncAll shows frames until all clients are registered and have received everything.
func syncAll(c *vh.C, s *scope.ScopeServer, sinks ...*sink) {
	show := func() float64 {
		n := float64(syncCounter.Add(1) % 1000000)
		s.ShowTimeFrame(&scope.TimeFrame{Frame: scope.Frame{Stream: syncStream}, Values: map[scope.ChannelID]float64{"n": n}})
		return n
	}
	for attempt := 0; ; attempt++ {
		lost := false
		for _, k := range sinks {
			if k.isEnded() {
				// on a busy machine, a client may have been too slow for the frames shown here
				k.mu.Lock()
				k.ended, k.lastSync = false, -1
				k.mu.Unlock()
				k.receive(c)
			}
			c.Reach(func() bool {
				if k.synced() >= 0 || k.isEnded() {
					return true
				}
				show()
				vh.WaitForD(func() bool { return k.synced() >= 0 }, 30*time.Millisecond)
				return false
			}, nil, "a client does not receive anything")
			lost = lost || k.isEnded()
		}
		last := show()
		for _, k := range sinks {
			c.Reach(func() bool { return k.synced() == last || k.isEnded() }, nil, "a client does not receive a frame")
			lost = lost || k.isEnded()
		}
		if !lost {
			return
		}
		if attempt >= 10 {
			c.FailWith(nil, "clients that read are disconnected")
			c.Abort()
		}
	}
}

// c26 compares the received frames with the shown frames.
func c26(r *vh.Run) {
	r.Rule("a case is a running scope with 1 to 3 clients and a sequence of random time frames and spectral frames (random streams, channels, markers, timestamps, and values including infinity, NaN, denormal and very large numbers; empty, nil and large contents), shown from one or several goroutines, the arguments being overwritten after each call; every received frame is compared field by field; distinct: the contents of the frames")
	r.Parallel(8, r.N(600, 12000), func(i int) {
		r.Case(fmt.Sprintf("frames/%d", i), func(c *vh.C) { c26Case(c, i) })
	})
}

func randomValue(c *vh.C) float64 {
	switch c.Intn(12) {
	case 0:
		return math.Inf(1)
	case 1:
		return math.Inf(-1)
	case 2:
		return math.NaN()
	case 3:
		return 0
	case 4:
		return math.Copysign(0, -1)
	case 5:
		return float64(math.Float32frombits(c.Uint32()))
	case 6:
		return math.Float64frombits(c.Uint64())
	case 7:
		return float64(math.SmallestNonzeroFloat32) * float64(c.Intn(4))
	case 8:
		return float64(c.Intn(1 << 30))
	}
	return c.NormFloat64() * math.Pow(10, float64(c.Intn(12)-6))
}

func randomID(c *vh.C) string {
	words := []string{"", "a", "decoder", "threshold", "state", "noise", "Ä", "信号", "x y", "\n", "\x00", "14", strings.Repeat("long", 100)}
	s := words[c.Intn(len(words))]
	if c.Intn(3) == 0 {
		s += fmt.Sprint(c.Intn(1000))
	}
	return s
}

func randomTime(c *vh.C) time.Time {
	switch c.Intn(6) {
	case 0:
		return time.Time{}
	case 1:
		return time.Now().Add(time.Duration(c.Intn(1000000)))
	case 2:
		return time.Unix(c.Int63n(200000000000)-60000000000, c.Int63n(1000000000))
	case 3:
		return time.Unix(-1, 999999999)
	}
	return time.Date(1+c.Intn(9998), time.Month(1+c.Intn(12)), 1+c.Intn(28), c.Intn(24), c.Intn(60), c.Intn(60), c.Intn(1000000000), time.FixedZone("x", c.Intn(40000)-20000))
}

func markers(c *vh.C) map[scope.MarkerID]float64 {
	if c.Intn(6) == 0 {
		return nil
	}
	result := map[scope.MarkerID]float64{}
	for n := c.Intn(8); n > 0; n-- {
		result[scope.MarkerID(randomID(c))] = randomValue(c)
	}
	return result
}

func same(a, b float64) bool {
	x, y := float32(a), float32(b)
	if x != x || y != y {
		return x != x && y != y
	}
	return math.Float32bits(x) == math.Float32bits(y) && (b == float64(float32(b)))
}

func sameMap[K comparable](shown, received map[K]float64) error {
	if len(shown) != len(received) {
		return fmt.Errorf("%d entries instead of %d", len(received), len(shown))
	}
	for k, v := range shown {
		w, ok := received[k]
		if !ok {
			return fmt.Errorf("%v is missing", k)
		}
		if !same(v, w) {
			return fmt.Errorf("%v is %v instead of %v", k, w, v)
		}
	}
	return nil
}

func compareTime(shown, received *scope.TimeFrame) error {
	if shown.Stream != received.Stream {
		return fmt.Errorf("stream %q instead of %q", received.Stream, shown.Stream)
	}
	if !shown.Timestamp.Equal(received.Timestamp) {
		return fmt.Errorf("timestamp %v instead of %v", received.Timestamp, shown.Timestamp)
	}
	if err := sameMap(shown.Values, received.Values); err != nil {
		return fmt.Errorf("values: %w", err)
	}
	return nil
}

func compareSpectral(shown, received *scope.SpectralFrame) error {
	if shown.Stream != received.Stream {
		return fmt.Errorf("stream %q instead of %q", received.Stream, shown.Stream)
	}
	if !shown.Timestamp.Equal(received.Timestamp) {
		return fmt.Errorf("timestamp %v instead of %v", received.Timestamp, shown.Timestamp)
	}
	if !same(shown.FromFrequency, received.FromFrequency) || !same(shown.ToFrequency, received.ToFrequency) {
		return fmt.Errorf("frequency range %v-%v instead of %v-%v", received.FromFrequency, received.ToFrequency, shown.FromFrequency, shown.ToFrequency)
	}
	if len(shown.Values) != len(received.Values) {
		return fmt.Errorf("%d values instead of %d", len(received.Values), len(shown.Values))
	}
	for i := range shown.Values {
		if !same(shown.Values[i], received.Values[i]) {
			return fmt.Errorf("value %d is %v instead of %v", i, received.Values[i], shown.Values[i])
		}
	}
	if err := sameMap(shown.FrequencyMarkers, received.FrequencyMarkers); err != nil {
		return fmt.Errorf("frequency markers: %w", err)
	}
	if err := sameMap(shown.MagnitudeMarkers, received.MagnitudeMarkers); err != nil {
		return fmt.Errorf("magnitude markers: %w", err)
	}
	return nil
}

func cloneMap[K comparable](m map[K]float64) map[K]float64 {
	result := map[K]float64{}
	for k, v := range m {
		result[k] = v
	}
	return result
}

func c26Case(c *vh.C, i int) {
	s := startScope(c, freeAddress())
	defer s.Stop()
	var sinks []*sink
	for n := 1 + c.Intn(3); n > 0; n-- {
		k := openSink(c, s.Addr().String())
		defer k.client.Close()
		sinks = append(sinks, k)
	}
	syncAll(c, s, sinks...)
	concurrent := i%4 == 3
	var shownTimes []*scope.TimeFrame
	var shownSpectral []*scope.SpectralFrame
	type op func()
	// the same argument is used for all frames of a kind, and is overwritten after each call
	timeArg := &scope.TimeFrame{Values: map[scope.ChannelID]float64{}}
	spectralArg := &scope.SpectralFrame{}
	rounds := 12 + c.Intn(12)
	for round := 0; round < rounds; round++ {
		var ops [2][]op
		for n := 1 + c.Intn(4); n > 0; n-- {
			if c.Intn(2) == 0 {
				f := &scope.TimeFrame{Frame: scope.Frame{Stream: scope.StreamID(randomID(c)), Timestamp: randomTime(c)}}
				if f.Stream == syncStream {
					f.Stream = "other"
				}
				if c.Intn(8) > 0 {
					f.Values = map[scope.ChannelID]float64{}
					for n := c.Intn(10); n > 0; n-- {
						f.Values[scope.ChannelID(randomID(c))] = randomValue(c)
					}
				}
				shownTimes = append(shownTimes, f)
				ops[0] = append(ops[0], func() {
					timeArg.Frame = f.Frame
					clear(timeArg.Values)
					for k, v := range f.Values {
						timeArg.Values[k] = v
					}
					s.ShowTimeFrame(timeArg)
					clear(timeArg.Values)
					timeArg.Frame = scope.Frame{Stream: "overwritten"}
				})
			} else {
				size := c.Intn(40)
				switch c.Intn(8) {
				case 0:
					size = 0
				case 1:
					size = 512
				case 2:
					size = c.Intn(20000)
				case 3:
					if c.Intn(8) == 0 {
						size = 500000
					}
				}
				f := &scope.SpectralFrame{Frame: scope.Frame{Stream: scope.StreamID(randomID(c)), Timestamp: randomTime(c)},
					FromFrequency: randomValue(c), ToFrequency: randomValue(c), FrequencyMarkers: markers(c), MagnitudeMarkers: markers(c)}
				if size > 0 || c.Intn(2) == 0 {
					f.Values = make([]float64, size)
					for i := range f.Values {
						f.Values[i] = randomValue(c)
					}
				}
				shownSpectral = append(shownSpectral, f)
				ops[1] = append(ops[1], func() {
					*spectralArg = *f
					spectralArg.Values = append([]float64(nil), f.Values...)
					spectralArg.FrequencyMarkers = cloneMap(f.FrequencyMarkers)
					spectralArg.MagnitudeMarkers = cloneMap(f.MagnitudeMarkers)
					s.ShowSpectralFrame(spectralArg)
					for i := range spectralArg.Values {
						spectralArg.Values[i] = 12345
					}
					clear(spectralArg.FrequencyMarkers)
					clear(spectralArg.MagnitudeMarkers)
					spectralArg.Stream = "overwritten"
				})
			}
		}
		if concurrent {
			done := make(chan any, 1)
			var wg sync.WaitGroup
			for _, list := range ops {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, o := range list {
						o()
					}
				}()
			}
			go func() { wg.Wait(); done <- nil }()
			c.Await("showing frames", done)
		} else {
			for _, list := range ops {
				for _, o := range list {
					o()
				}
			}
		}
		// the clients keep up, because never more than a few frames are pending
		for _, k := range sinks {
			c.Reach(func() bool {
				t, p, ended := k.get()
				return t >= len(shownTimes) && p >= len(shownSpectral) || ended
			}, nil, "not all frames were received")
			if _, _, ended := k.get(); ended {
				c.FailWith(nil, "a client that keeps up is disconnected")
				c.Abort()
			}
		}
	}
	for _, k := range sinks {
		k.mu.Lock()
		times, spectral := k.times, k.spectral
		k.mu.Unlock()
		if len(times) != len(shownTimes) || len(spectral) != len(shownSpectral) {
			c.FailWith(nil, "received %d and %d frames instead of %d and %d", len(times), len(spectral), len(shownTimes), len(shownSpectral))
			c.Abort()
		}
		for i := range times {
			if err := compareTime(shownTimes[i], times[i]); err != nil {
				c.FailWith(fmt.Sprintf("%+v / %+v", shownTimes[i], times[i]), "time frame %d: %v", i, err)
				c.Abort()
			}
		}
		for i := range spectral {
			if err := compareSpectral(shownSpectral[i], spectral[i]); err != nil {
				c.FailWith(nil, "spectral frame %d: %v", i, err)
				c.Abort()
			}
			c.Count("spectral values compared", len(spectral[i].Values))
		}
	}
	c.Count("time frames compared", len(shownTimes)*len(sinks))
	c.Count("spectral frames compared", len(shownSpectral)*len(sinks))
	c.Eval((len(shownTimes) + len(shownSpectral)) * len(sinks))
	for _, f := range shownTimes {
		c.Key(fmt.Sprint(f))
	}
	for _, f := range shownSpectral {
		c.Key(fmt.Sprint(f.Frame, f.FromFrequency, f.ToFrequency, len(f.Values), f.FrequencyMarkers))
	}
	if len(shownTimes) > 0 {
		c.Sample(fmt.Sprint(shownTimes[0]))
	}
}
