package main

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"time"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"

	"verif/vh"
)

// disturbances of the data stream; loud ones contain finite values that can look like signals.
var disturbances = []struct {
	name string
	loud bool
	feed func(d *disturber, n int)
}{
	{"zeros", false, func(d *disturber, n int) { d.blocks(n, func(x []float32) { clear(x) }) }},
	{"NaN", false, func(d *disturber, n int) { d.values(n, float32(math.NaN())) }},
	{"+Inf", false, func(d *disturber, n int) { d.values(n, float32(math.Inf(1))) }},
	{"-Inf", false, func(d *disturber, n int) { d.values(n, float32(math.Inf(-1))) }},
	{"mixed", false, func(d *disturber, n int) {
		d.blocks(n, func(x []float32) {
			for i := range x {
				x[i] = []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32}[d.c.Intn(4)]
			}
		})
	}},
	{"maximum", true, func(d *disturber, n int) { d.values(n, math.MaxFloat32) }},
	{"tiny", false, func(d *disturber, n int) { d.values(n, math.SmallestNonzeroFloat32) }},
	{"constant", true, func(d *disturber, n int) { d.blocks(n, func(x []float32) { fill(x, 1) }) }},
	{"full scale noise", true, func(d *disturber, n int) {
		d.blocks(n, func(x []float32) {
			for i := range x {
				x[i] = float32(d.c.Intn(3) - 1)
			}
		})
	}},
	{"impulses", true, func(d *disturber, n int) {
		d.blocks(n, func(x []float32) {
			clear(x)
			x[d.c.Intn(len(x))] = 1000
		})
	}},
	{"wrong size", false, func(d *disturber, n int) {
		for i := 0; i < n; i++ {
			size := []int{0, 2, 4, d.g.block, 2*d.g.block - 2, 2*d.g.block + 2, 4 * d.g.block}[d.c.Intn(7)]
			d.iq(d.g.rate, make([]float32, size))
		}
	}},
	{"nil", false, func(d *disturber, n int) {
		for i := 0; i < n; i++ {
			d.iq(d.g.rate, nil)
		}
	}},
	{"wrong rate", false, func(d *disturber, n int) {
		for i := 0; i < n; i++ {
			d.iq([]int{0, -1, d.g.rate * 2, d.g.rate / 2, 12000}[d.c.Intn(5)], d.b.next())
		}
	}},
	{"burst", false, func(d *disturber, n int) {
		for i := 0; i < n; i++ {
			d.iq(d.g.rate, d.last)
		}
	}},
}

func fill(x []float32, v float32) {
	for i := range x {
		x[i] = v
	}
}

type disturber struct {
	c    *vh.C
	g    *rig
	b    *band
	last []float32
	sent int
}

func (d *disturber) iq(rate int, data []float32) {
	d.g.rcv.IQData(rate, data)
	d.sent++
	if d.sent%50 == 0 {
		d.settle()
	}
}

// settle waits until the receiver has taken everything it will take.
func (d *disturber) settle() {
	d.c.Within("CenterFrequency", func() { d.g.rcv.CenterFrequency() })
}

func (d *disturber) values(n int, v float32) {
	d.blocks(n, func(x []float32) { fill(x, v) })
}

func (d *disturber) blocks(n int, f func(x []float32)) {
	for i := 0; i < n; i++ {
		x := make([]float32, 2*d.g.block)
		f(x)
		d.iq(d.g.rate, x)
	}
}

func c19(r *vh.Run) {
	r.Rule("sequences of 1 to 6 disturbances (digital silence, NaN, infinite, maximum and tiny values, full scale, impulses, wrong sizes and rates, bursts) of 1 to 300 blocks before, between and after regular data; the source is never blocked, also while the receiver waits for a slow report or scope, and afterwards a station that starts to transmit is spotted (strain mode) or printed (decode mode); after disturbances without finite values above the noise this takes not longer than undisturbed; distinct: mode and sequence of disturbances")
	provideData(allData)
	for i := 0; i < r.N(64, 1000); i++ {
		r.Case(fmt.Sprintf("strain/%d", i), func(c *vh.C) { c19strain(c, i) })
	}
	for i := 0; i < r.N(12, 200); i++ {
		r.Case(fmt.Sprintf("busy/%d", i), func(c *vh.C) { c19busy(c) })
	}
	for i := 0; i < r.N(32, 500); i++ {
		r.Case(fmt.Sprintf("decode/%d", i), func(c *vh.C) { c19decode(c) })
	}
}

// disturb the receiver; the names of the disturbances and whether one of them is loud.
func (d *disturber) run() ([]string, bool) {
	var names []string
	loud := false
	allowLoud := d.c.Intn(2) == 0
	for k := 1 + d.c.Intn(6); k > 0; k-- {
		x := disturbances[d.c.Intn(len(disturbances))]
		if x.loud && !allowLoud {
			continue
		}
		n := []int{1, 1 + d.c.Intn(59), 60 + d.c.Intn(60), 100 + d.c.Intn(200)}[d.c.Intn(4)]
		before := len(d.g.rec.all())
		d.c.Within(x.name, func() { x.feed(d, n) })
		d.settle()
		names = append(names, fmt.Sprintf("%s %d", x.name, n))
		loud = loud || x.loud
		d.c.Count("disturbed blocks", n)
		d.c.Count("events during disturbances", len(d.g.rec.all())-before)
		for m := []int{0, d.c.Intn(100), 100}[d.c.Intn(3)]; m > 0; m-- {
			d.iq(d.g.rate, d.b.next())
		}
	}
	d.settle()
	return names, loud
}

// align feeds regular data until a spectral frame is complete, so that the following batches are in step.
func (d *disturber) align() {
	processed := func() {
		if !vh.WaitFor(vh.Idle) {
			blocked, _ := vh.BlockedInSdrainer()
			d.c.FailWith(blocked, "the receiver does not come to rest after the disturbance")
			d.c.Abort()
		}
	}
	processed()
	before := d.g.scope.spectral.Load()
	for i := 0; i < 400; i++ {
		d.g.rcv.IQData(d.g.rate, d.b.next())
		processed()
		if d.g.scope.spectral.Load() != before {
			return
		}
	}
	d.c.Failf("no spectrum is available anymore")
	d.c.Abort()
}

func c19strain(c *vh.C, i int) {
	g := newRig(c, rx.StrainMode, 48000, 512, 7020000)
	b := newBand(48000, 512, 1e-3, c.Rand)
	call := ""
	for call == "" || strings.Contains(call, "/") || !allData.valid(strings.ToUpper(call)) || len(call) > 8 {
		call = strings.ToLower(randomCall(c.Rand))
	}
	bin := 20 + c.Intn(470)
	g.start()
	if c.Intn(2) == 0 {
		g.run(b, 1+c.Intn(3), nil)
	}
	d := &disturber{c: c, g: g, b: b, last: b.next()}
	names, loud := d.run()
	d.align()
	if loud {
		// some bins may be occupied by what looked like a signal
		g.run(b, 3, nil)
		g.clock.Add(5 * time.Minute)
		g.run(b, 2, nil)                    // release
		time.Sleep(1100 * time.Millisecond) // cleanup, every second
	}
	b.stations = append(b.stations, newStation("cq cq de "+call+" "+call+" k", float64(bin-256)*93.75, b.amplitude(41), 20+c.Float64()*6, 48000, b.pos))
	spotted := func() bool {
		for _, e := range g.rec.all() {
			if e.Kind == "spotted" && e.Call == strings.ToUpper(call) {
				return true
			}
		}
		return false
	}
	if !g.run(b, 60, spotted) {
		c.FailWith(map[string]any{"disturbances": names, "events": fmt.Sprintf("%+v", g.rec.all())}, "%s in bin %d is not spotted within 64 s after %v", call, bin, names)
	}
	g.stop()
	if active, err := activeListeners(g.rec.all(), 30); err != nil || len(active) > 0 {
		c.Failf("after %v: %v %v", names, active, err)
	}
	c.Key(fmt.Sprint("strain", names))
	c.Sample(map[string]any{"mode": "strain", "disturbances": names, "call": call})
	c.Count("recovered", 1)
}

func c19decode(c *vh.C) {
	out := newCapture(c)
	defer out.close()
	g := newRig(c, rx.DecodeMode, 48000, 512, 7020000)
	b := newBand(48000, 512, 1e-3, c.Rand)
	words := []string{"paris", "vvv", "test", "codex", "jim0"}
	bin := 20 + c.Intn(470)
	b.stations = append(b.stations, newStation(strings.Join(words, " "), float64(bin-256)*93.75, b.amplitude(41), 18+c.Float64()*8, 48000, c.Intn(48000)))
	g.rcv.SetVFOOffset(g.binFreq(bin) - g.center)
	g.start()
	if c.Intn(2) == 0 {
		g.run(b, 1+c.Intn(10), nil)
	}
	d := &disturber{c: c, g: g, b: b, last: b.next()}
	names, _ := d.run()
	d.align()
	g.run(b, 20, nil)
	out.take()
	g.run(b, 15, nil)
	text := out.take()
	if _, err := judgeText(text, words, 1); err != nil {
		c.FailWith(map[string]any{"disturbances": names, "bin": bin, "wpm": b.stations[0].wpm}, "after %v: %v", names, err)
	} else if len(strings.Fields(text)) < 4 {
		c.FailWith(map[string]any{"disturbances": names}, "after %v: only %q", names, text)
	}
	g.stop()
	c.Key(fmt.Sprint("decode", names))
	c.Sample(map[string]any{"mode": "decode", "disturbances": names, "text": text})
	c.Count("recovered", 1)
}

// c19busy keeps the receiver busy in a report or in the scope, while the source goes on.
func c19busy(c *vh.C) {
	g := newRig(c, rx.StrainMode, 48000, 512, 7020000)
	b := newBand(48000, 512, 1e-3, c.Rand)
	call := "dl1abc"
	bin := 20 + c.Intn(470)
	hold, held := make(chan struct{}), make(chan struct{})
	var once sync.Once
	wait := func() {
		once.Do(func() {
			close(held)
			<-hold
		})
	}
	where := []string{"report", "spectrum", "demodulation"}[c.Intn(3)]
	switch where {
	case "report":
		g.rcv.AddReporter(busyReporter{wait})
	case "spectrum":
		g.scope.onSpectral = wait
	case "demodulation":
		g.scope.onTime = func(*scope.TimeFrame) { wait() }
	}
	g.start()
	b.stations = append(b.stations, newStation("cq cq de "+call+" "+call+" k", float64(bin-256)*93.75, b.amplitude(41), 20+c.Float64()*6, 48000, b.pos))
	for blocks := 0; ; blocks++ {
		select {
		case <-held:
		default:
			if blocks > 100000 {
				c.Failf("no %s within %d blocks", where, blocks)
				c.Abort()
			}
			g.rcv.IQData(48000, b.next())
			if blocks%50 == 0 {
				time.Sleep(time.Millisecond)
			}
			continue
		}
		break
	}
	blocks := 150 + c.Intn(400)
	c.Within("delivering IQ data to a busy receiver", func() {
		for i := 0; i < blocks; i++ {
			g.rcv.IQData(48000, b.next())
		}
	})
	close(hold)
	d := &disturber{c: c, g: g, b: b, last: b.next()}
	d.align()
	before := len(g.rec.all())
	spotted := func() bool {
		for _, e := range g.rec.all()[before:] {
			if e.Kind == "spotted" && e.Call == strings.ToUpper(call) {
				return true
			}
		}
		return false
	}
	if !g.run(b, 100, spotted) {
		c.FailWith(fmt.Sprintf("%+v", g.rec.all()), "%s in bin %d is not spotted within 107 s after the receiver was busy in a %s", call, bin, where)
	}
	g.stop()
	c.Count("blocks sent to a busy receiver", blocks)
	c.Count("recovered", 1)
	c.Key(fmt.Sprint("busy", where, blocks, bin))
	c.Sample(map[string]any{"busy": where, "blocks": blocks})
}

type busyReporter struct{ wait func() }

func (r busyReporter) ListenerActivated(string, int)                 { r.wait() }
func (r busyReporter) ListenerDeactivated(string, int)               {}
func (r busyReporter) CallsignDecoded(string, string, int, int, int) {}
func (r busyReporter) CallsignSpotted(string, string, int)           {}
func (r busyReporter) SpotTimeout(string, string, int)               {}
