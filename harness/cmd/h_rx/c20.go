package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ftl/sdrainer/rx"

	"verif/vh"
)

func c20(r *vh.Run) {
	r.Rule("several goroutines start, stop, feed, re-configure and query a receiver in strain or decode mode at the same time, with carriers and keyed signals and random pauses, then the receiver is stopped, fed, and started again with another format; listeners are released while a slow reporter handles one of their callsigns; also single-threaded random sequences with exact expectations; distinct: operations and their order as started")
	provideData(allData)
	r.Parallel(4, r.N(160, 3000), func(i int) {
		r.Case(fmt.Sprintf("sequence/%d", i), func(c *vh.C) { c20sequence(c) })
	})
	r.Parallel(4, r.N(60, 1500), func(i int) {
		r.Case(fmt.Sprintf("concurrent/%d", i), func(c *vh.C) { c20concurrent(c) })
	})
	r.Parallel(4, r.N(48, 600), func(i int) {
		r.Case(fmt.Sprintf("slow/%d", i), func(c *vh.C) { c20slow(c) })
	})
}

var formats = [][2]int{{48000, 512}, {96000, 1024}, {48000, 256}, {192000, 2048}, {12000, 512}}

func c20mode(c *vh.C) rx.ReceiverMode {
	if c.Intn(3) == 0 {
		return rx.DecodeMode
	}
	return rx.StrainMode
}

// signals makes blocks of some carriers and a keyed station.
func signals(rnd *rand.Rand, format [2]int) *band {
	b := newBand(format[0], format[1], 1e-3, rnd)
	for k := 0; k < 1+rnd.Intn(4); k++ {
		text := ""
		if k == 0 {
			text = "dl1abc dl1abc"
		}
		b.stations = append(b.stations, newStation(text, float64(2+rnd.Intn(format[1]-4)-format[1]/2)*float64(format[0])/float64(format[1]), b.amplitude(40), 24, format[0], 0))
	}
	return b
}

// c20sequence performs a random sequence of operations one after another.
func c20sequence(c *vh.C) {
	mode := c20mode(c)
	format := formats[c.Intn(len(formats))]
	center := 7000000 + c.Intn(100)
	g := newRig(c, mode, format[0], format[1], center)
	b := signals(c.Rand, format)
	running := false
	vfo := false
	var ops []string
	check := func() {
		events := g.rec.all()
		limit := 30
		if mode == rx.DecodeMode {
			limit = 1
		}
		active, err := activeListeners(events, limit)
		if err != nil {
			c.FailWith(map[string]any{"operations": ops, "events": fmt.Sprintf("%+v", events)}, "%v", err)
			c.Abort()
		}
		if !running && len(active) > 0 {
			c.FailWith(map[string]any{"operations": ops, "events": fmt.Sprintf("%+v", events)}, "%d active listeners on a stopped receiver", len(active))
			c.Abort()
		}
		var got int
		c.Within("CenterFrequency", func() { got = g.rcv.CenterFrequency() })
		if got != center {
			c.FailWith(map[string]any{"operations": ops}, "the center frequency is %d, but %d was set", got, center)
			c.Abort()
		}
	}
	for k := 10 + c.Intn(40); k > 0; k-- {
		op := c.Intn(12)
		if len(ops) == 0 && c.Intn(3) > 0 {
			op = 0
		}
		switch op {
		case 0:
			ops = append(ops, "start")
			if running { // no effect, whatever the parameters are
				c.Within("Start", func() { g.rcv.Start(1, 2) })
			} else {
				if c.Intn(2) == 0 {
					format = formats[c.Intn(len(formats))]
					g.rate, g.block = format[0], format[1]
					b = signals(c.Rand, format)
				}
				g.start()
				running = true
			}
		case 1:
			ops = append(ops, "stop")
			g.stop()
			running = false
		case 2, 3, 4, 5:
			n := []int{1, 10, 90, 100, 200}[c.Intn(5)]
			ops = append(ops, fmt.Sprint("feed ", n))
			before := len(g.rec.all())
			c.Within("IQData", func() {
				for i := 0; i < n; i++ {
					g.rcv.IQData(format[0], b.next())
					if i%20 == 0 {
						g.rcv.CenterFrequency()
					}
				}
			})
			if !running && len(g.rec.all()) != before {
				c.FailWith(map[string]any{"operations": ops}, "a stopped receiver reports %+v", g.rec.all()[before:])
				c.Abort()
			}
		case 6:
			center = 7000000 + c.Intn(100)
			ops = append(ops, fmt.Sprint("center ", center))
			c.Within("SetCenterFrequency", func() { g.rcv.SetCenterFrequency(center) })
		case 7:
			vfo = true
			ops = append(ops, "vfo")
			f := c.Intn(20000) - 10000
			c.Within("SetVFOOffset", func() { g.rcv.SetVFOOffset(f) })
		case 8:
			g.clock.Add(time.Duration(c.Intn(200)) * time.Second)
			ops = append(ops, "clock")
		case 9:
			ops = append(ops, "scope")
			c.Within("SetScope", func() { g.rcv.SetScope(g.scope) })
		default:
			ops = append(ops, "settings")
			c.Within("settings", func() { randomSetting(c.Rand, g.rcv) })
		}
		c.Count("operations", 1)
		check()
	}
	// at the end it works as ever
	g.stop()
	running = false
	check()
	format = formats[c.Intn(3)]
	g.rate, g.block = format[0], format[1]
	b = signals(c.Rand, format)
	g.rcv.SetEdgeWidth(70)
	g.rcv.SetPeakThreshold(15)
	if !vfo && mode == rx.DecodeMode {
		g.rcv.SetVFOOffset(1000)
	}
	g.start()
	running = true
	works := g.run(b, 5, func() bool {
		active, _ := activeListeners(g.rec.all(), 30)
		return len(active) > 0
	})
	if !works {
		c.FailWith(map[string]any{"operations": ops, "events": fmt.Sprintf("%+v", g.rec.all())}, "no listener is active after the restart in %s mode", mode)
	}
	check()
	g.stop()
	running = false
	check()
	c.Key(fmt.Sprint(mode, strings.Join(ops, " ")))
	c.Sample(map[string]any{"mode": mode, "operations": lastN(ops, 20)})
}

func randomSetting(rnd *rand.Rand, rcv *rx.Receiver[float32, int]) {
	switch rnd.Intn(5) {
	case 0:
		rcv.SetPeakThreshold(float32(rnd.Intn(40)))
	case 1:
		rcv.SetEdgeWidth(rnd.Intn(200) - 20)
	case 2:
		rcv.SetSilenceTimeout(time.Duration(rnd.Intn(60)) * time.Second)
	case 3:
		rcv.SetAttachmentTimeout(time.Duration(rnd.Intn(60)) * time.Second)
	case 4:
		rcv.SetSignalDebounce(rnd.Intn(4))
	}
}

func c20concurrent(c *vh.C) {
	mode := c20mode(c)
	center := 7000000
	g := newRig(c, mode, 48000, 512, center)
	all := append([][2]int(nil), formats[:2]...)
	// pre-computed data, so that the receiver has something to do
	var data [2][][]float32
	for f := range data {
		b := signals(c.Rand, all[f])
		for i := 0; i < 300; i++ {
			data[f] = append(data[f], b.next())
		}
	}
	var wg sync.WaitGroup
	var stopped atomic.Bool
	var ops atomic.Int64
	var problem atomic.Value
	goroutines := 0
	worker := func(f func(rnd *rand.Rand)) {
		goroutines++
		rnd := rand.New(rand.NewSource(c.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stopped.Load() {
				f(rnd)
				ops.Add(1)
				switch rnd.Intn(6) {
				case 0:
					runtime.Gosched()
				case 1:
					time.Sleep(time.Duration(rnd.Intn(300)) * time.Microsecond)
				}
			}
		}()
	}
	// lifecycle: one or two goroutines
	for k := 0; k < 1+c.Intn(2); k++ {
		worker(func(rnd *rand.Rand) {
			f := all[rnd.Intn(2)]
			g.rcv.Start(f[0], f[1])
			time.Sleep(time.Duration(rnd.Intn([]int{3000, 8000, 80000}[rnd.Intn(3)])) * time.Microsecond)
			g.rcv.Stop()
		})
	}
	for k := 0; k < 1+c.Intn(2); k++ {
		worker(func(rnd *rand.Rand) {
			f := rnd.Intn(2)
			for i := 0; i < 60; i++ {
				g.rcv.IQData(all[f][0], data[f][rnd.Intn(len(data[f]))])
			}
		})
	}
	for k := 0; k < 1+c.Intn(3); k++ {
		worker(func(rnd *rand.Rand) { randomSetting(rnd, g.rcv) })
	}
	// only one goroutine sets the center frequency, so it must always get back what it has set
	worker(func(rnd *rand.Rand) {
		f := 7000000 + rnd.Intn(1000)
		g.rcv.SetCenterFrequency(f)
		if got := g.rcv.CenterFrequency(); got != f {
			problem.CompareAndSwap(nil, fmt.Sprintf("the center frequency is %d, but %d was set", got, f))
		}
	})
	worker(func(rnd *rand.Rand) { g.rcv.CenterFrequency() })
	if c.Intn(2) == 0 {
		worker(func(rnd *rand.Rand) { g.rcv.SetVFOOffset(rnd.Intn(40000) - 20000) })
	}
	if c.Intn(2) == 0 {
		worker(func(rnd *rand.Rand) { g.clock.Add(time.Duration(rnd.Intn(3000)) * time.Millisecond) })
	}
	if c.Intn(2) == 0 {
		worker(func(rnd *rand.Rand) { g.rcv.SetScope(g.scope) })
	}
	time.Sleep(time.Duration(150+c.Intn(150)) * time.Millisecond)
	stopped.Store(true)
	c.Within("the operations", wg.Wait)
	g.stop()
	if p := problem.Load(); p != nil {
		c.Failf("%v", p)
	}
	events := g.rec.all()
	active, err := activeListeners(events, 30)
	if err != nil {
		c.FailWith(fmt.Sprintf("%+v", lastN(events, 60)), "%v", err)
	}
	if len(active) > 0 {
		c.FailWith(fmt.Sprintf("%+v", lastN(events, 60)), "%d active listeners after the stop", len(active))
	}
	for i := 0; i < 50; i++ {
		g.rcv.IQData(48000, data[0][i])
	}
	if n := len(g.rec.all()); n != len(events) {
		c.Failf("%d reports after the stop", n-len(events))
	}
	c.Count("concurrent operations", int(ops.Load()))
	c.Count("goroutines", goroutines)
	c.Count("reports", len(events))
	c.Key(fmt.Sprint(mode, goroutines, ops.Load(), len(events)))
	c.Sample(map[string]any{"mode": mode, "goroutines": goroutines, "operations": ops.Load(), "reports": len(events), "stage": os.Getenv("VERIF_STAGE")})
}

// slowReporter delays the report of a callsign and tells about it.
type slowReporter struct {
	delay time.Duration
	hit   chan struct{}
	once  sync.Once
}

func (r *slowReporter) ListenerActivated(string, int)   {}
func (r *slowReporter) ListenerDeactivated(string, int) {}
func (r *slowReporter) CallsignDecoded(_ string, _ string, _, count, _ int) {
	if count >= 2 {
		r.once.Do(func() { close(r.hit) })
		time.Sleep(r.delay)
	}
}
func (r *slowReporter) CallsignSpotted(string, string, int) { time.Sleep(r.delay / 4) }
func (r *slowReporter) SpotTimeout(string, string, int)     { time.Sleep(r.delay / 4) }

// c20slow: a listener loses its signal while one of its callsigns is reported.
func c20slow(c *vh.C) {
	mode := c20mode(c)
	g := newRig(c, mode, 48000, 512, 7000000)
	slow := &slowReporter{delay: time.Duration(5+c.Intn(60)) * time.Millisecond, hit: make(chan struct{})}
	g.rcv.AddReporter(slow)
	b := newBand(48000, 512, 1e-3, c.Rand)
	offset := float64(c.Intn(200)-100) * 93.75
	call := []string{"dl1abc", "9a1aa"}[c.Intn(2)]
	b.stations = append(b.stations, newStation(strings.Repeat(call+" ", 5), offset, b.amplitude(40), 24+c.Float64()*6, 48000, 0))
	g.rcv.SetVFOOffset(int(math.Round(offset)))
	g.start()
	end := []string{"stop", "retune", "attachment", "silence"}[c.Intn(4)]
	if mode == rx.DecodeMode {
		end = []string{"stop", "retune"}[c.Intn(2)]
	}
	ended := make(chan any, 1)
	go func() {
		defer func() { ended <- recover() }()
		<-slow.hit
		switch end {
		case "stop":
			g.rcv.Stop()
		case "retune":
			if mode == rx.DecodeMode {
				g.rcv.SetVFOOffset(int(math.Round(offset)) + 5000)
			} else {
				g.rcv.SetCenterFrequency(7001000)
			}
		case "attachment":
			g.rcv.SetAttachmentTimeout(time.Nanosecond)
		case "silence":
			g.rcv.SetSilenceTimeout(-time.Second)
		}
	}()
	hit := false
	for i := 0; i < 60 && !hit; i++ {
		g.clock.Add(g.batchDuration())
		frames := g.scope.spectral.Load()
		for j := 0; j < batch; j++ {
			g.rcv.IQData(48000, b.next())
		}
		vh.WaitFor(func() bool {
			select {
			case <-slow.hit:
				hit = true
			default:
			}
			return hit || g.scope.spectral.Load() > frames
		})
	}
	if !hit {
		c.FailWith(fmt.Sprintf("%+v", g.rec.all()), "the callsign %s is not reported twice in %s mode", call, mode)
		slow.once.Do(func() { close(slow.hit) })
	}
	c.Await("the release", ended)
	for j := 0; j < 30; j++ {
		g.rcv.IQData(48000, b.next())
		time.Sleep(time.Duration(c.Intn(3)) * time.Millisecond)
	}
	g.stop()
	events := g.rec.all()
	active, err := activeListeners(events, 30)
	if err != nil {
		c.FailWith(fmt.Sprintf("%+v", events), "%v", err)
	}
	if len(active) > 0 {
		c.FailWith(fmt.Sprintf("%+v", events), "%d active listeners after the stop", len(active))
	}
	c.Count("releases during a report", 1)
	c.Key(fmt.Sprint(mode, end, slow.delay, offset))
	c.Sample(map[string]any{"mode": mode, "end": end, "delay": slow.delay.String(), "reports": len(events)})
}
