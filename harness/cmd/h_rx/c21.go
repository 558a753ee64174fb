package main

import (
	"fmt"
	"math"
	"os"
	"sync"
	"time"

	"github.com/ftl/sdrainer/dsp"
	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"

	"verif/vh"
)

// The points in time at which a setting is made. After each of them the same effect is expected.
var settingTimes = []string{"before the start", "running, idle", "attached", "stopped, before a restart", "running, then restarted", "attached, then restarted"}

// arrange brings the receiver into the state for the setting, makes the setting, and starts the receiver if it is not running.
// The band must contain a signal that will be attached.
func arrange(g *rig, b *band, when string, set func()) {
	idle := newBand(b.rate, b.block, b.noise, b.rnd)
	attached := func() bool {
		active, _ := activeListeners(g.rec.all(), 30)
		return len(active) > 0
	}
	attach := func() {
		if !g.run(b, 8, attached) {
			g.c.FailWith(fmt.Sprintf("%+v", g.rec.all()), "the signal is not attached (%s)", when)
			g.c.Abort()
		}
	}
	do := func() { g.c.Within("a setting", set) }
	switch when {
	case "before the start":
		do()
		g.start()
	case "running, idle":
		g.start()
		g.run(idle, 2, nil)
		do()
	case "attached":
		g.start()
		attach()
		do()
	case "stopped, before a restart":
		g.start()
		attach()
		g.stop()
		do()
		g.start()
	case "running, then restarted":
		g.start()
		g.run(idle, 1, nil)
		do()
		g.stop()
		g.start()
	case "attached, then restarted":
		g.start()
		attach()
		do()
		g.stop()
		g.start()
	}
	g.rcv.CenterFrequency() // the setting is made now
}

func c21(r *vh.Run) {
	r.Rule("each setting (debounce, silence timeout, attachment timeout, scope, detection threshold, edge width, center frequency) with random values at each of 6 points in time relative to start, attachment and restart; the effect is observed in scope frames and reports and must be the same; distinct: setting, point in time and value")
	provideData(allData)
	settings := []struct {
		name string
		f    func(c *vh.C, when string)
	}{
		{"debounce", c21debounce}, {"silence", c21silence}, {"attachment", c21attachment}, {"scope", c21scope},
		{"threshold", c21threshold}, {"edge", c21edge}, {"center", c21center},
	}
	rounds := r.N(5, 50)
	if os.Getenv("VERIF_STAGE") == "race" { // much slower
		rounds = r.N(1, 8)
	}
	r.Parallel(4, len(settings)*len(settingTimes)*rounds, func(i int) {
		s, when := settings[i%len(settings)], settingTimes[i/len(settings)%len(settingTimes)]
		r.Case(fmt.Sprintf("%s/%s/%d", s.name, when, i), func(c *vh.C) {
			s.f(c, when)
			c.Count("setting "+s.name, 1)
		})
	})
	r.Parallel(4, r.N(8, 12)*rounds, func(i int) {
		r.Case(fmt.Sprintf("history/%d", i), c21history)
	})
}

func c21band(c *vh.C, snr float64) (*rig, *band, int) {
	g := newRig(c, rx.StrainMode, 48000, 512, 7000000+c.Intn(50000))
	b := newBand(48000, 512, 2e-3, c.Rand)
	bin := 80 + c.Intn(350)
	b.stations = []*station{newStation("", float64(bin-256)*93.75, b.amplitude(snr), 20, 48000, 0)}
	return g, b, bin
}

// elsewhere moves the signal to another bin, so that it is not the one that was attached before.
func elsewhere(c *vh.C, b *band) int {
	old := int(math.Round(b.stations[0].offset/93.75)) + 256
	bin := 80 + c.Intn(350)
	for absInt(bin-old) < 5 {
		bin = 80 + c.Intn(350)
	}
	b.stations[0].tune(float64(bin-256)*93.75, 48000)
	return bin
}

// demodFrame is what the scope shows about a listener at one tick.
type demodFrame struct{ state, debounced bool }

type demodRecorder struct {
	frameScope
	mu     sync.Mutex
	frames []demodFrame
}

func newDemodRecorder() *demodRecorder {
	r := &demodRecorder{}
	r.onTime = func(f *scope.TimeFrame) {
		if f.Stream == "demod" {
			r.mu.Lock()
			r.frames = append(r.frames, demodFrame{f.Values["state"] > 0, f.Values["debounced"] > 0})
			r.mu.Unlock()
		}
	}
	return r
}

func (r *demodRecorder) take() []demodFrame {
	r.mu.Lock()
	defer r.mu.Unlock()
	result := r.frames
	r.frames = nil
	return result
}

// checkDebounce returns the index of the first frame that contradicts the threshold, or -1. The first frames are skipped.
func checkDebounce(frames []demodFrame, n, skip int) int {
	for t := max(skip, n, 1); t < len(frames); t++ {
		want := frames[t-1].debounced
		stable := true
		for k := t - n + 1; k < t; k++ {
			stable = stable && frames[k].state == frames[t].state
		}
		if stable {
			want = frames[t].state
		}
		if frames[t].debounced != want {
			return t
		}
	}
	return -1
}

// flicker keys the signal block by block at random.
type flicker struct {
	b    *band
	on   *band
	left int
	live bool
}

func (f *flicker) next() []float32 {
	if f.left == 0 {
		f.left = 1 + f.b.rnd.Intn(1+f.b.rnd.Intn(8))
		f.live = !f.live
	}
	f.left--
	if f.live {
		return f.on.next()
	}
	return f.b.next()
}

func c21debounce(c *vh.C, when string) {
	g, b, _ := c21band(c, 45)
	rec := newDemodRecorder()
	g.scope = &rec.frameScope
	g.rcv.SetScope(rec)
	n := c.Intn(6)
	arrange(g, b, when, func() { g.rcv.SetSignalDebounce(n) })
	fl := &flicker{b: newBand(48000, 512, 2e-3, c.Rand), on: b}
	judged := 0
	// at first the listener that is attached already (or the first one), later the next ones
	for round := 0; round < 2; round++ {
		if !g.run(b, 8, func() bool {
			active, _ := activeListeners(g.rec.all(), 30)
			return len(active) == 1
		}) {
			c.Failf("the signal is not attached (%s)", when)
			c.Abort()
		}
		rec.take()
		for k := 0; k < 4; k++ {
			g.feed(fl.next)
		}
		frames := rec.take()
		if len(frames) < 300 {
			c.Failf("only %d frames of the listener in 400 blocks (%s)", len(frames), when)
			c.Abort()
		}
		if t := checkDebounce(frames, n, 2*n); t >= 0 {
			c.FailWith(fmt.Sprint(frames[max(0, t-2*n-2):t+1]), "debounce %d set %q has no effect on the %d. listener", n, when, round+1)
			c.Abort()
		}
		judged += len(frames)
		if round == 0 {
			if c.Intn(2) == 0 { // release it, the next listener is another one
				elsewhere(c, b)
				g.clock.Add(time.Hour)
				g.feed(b.next)
			} else {
				g.stop()
				g.start()
				elsewhere(c, b)
			}
		}
	}
	g.stop()
	c.Count("frames of debounced signals", judged)
	c.Key(fmt.Sprint("debounce", when, n))
	c.Sample(map[string]any{"setting": "debounce", "value": n, "when": when, "frames": judged})
}

// c21release checks when listeners are released.
func c21release(c *vh.C, when, what string, timeout time.Duration, set func(g *rig)) {
	g, b, _ := c21band(c, 45)
	g.rcv.SetSilenceTimeout(time.Hour)
	g.rcv.SetAttachmentTimeout(time.Hour)
	arrange(g, b, when, func() { set(g) })
	for round := 0; round < 2; round++ {
		if !g.run(b, 8, func() bool {
			active, _ := activeListeners(g.rec.all(), 30)
			return len(active) == 1
		}) {
			c.Failf("the signal is not attached (%s)", when)
			c.Abort()
		}
		var at time.Duration
		for _, e := range g.rec.all() {
			if e.Kind == "activated" {
				at = e.At
			}
		}
		released := func() bool {
			g.feed(b.next)
			active, _ := activeListeners(g.rec.all(), 30)
			return len(active) == 0
		}
		now := g.clock.Now().Sub(g.rec.start)
		if now-at > timeout { // the setting was made too late for this listener: it is released immediately
			if !released() {
				c.FailWith(fmt.Sprintf("%+v", g.rec.all()), "%s timeout %v set %q: the %d. listener is still active after %v", what, timeout, when, round+1, now-at)
			}
		} else {
			g.clock.Add(at + timeout - now)
			if released() {
				c.FailWith(fmt.Sprintf("%+v", g.rec.all()), "%s timeout %v set %q: the %d. listener is released too early", what, timeout, when, round+1)
				c.Abort()
			}
			g.clock.Add(time.Duration(1 + c.Intn(1000000000)))
			if !released() {
				c.FailWith(fmt.Sprintf("%+v", g.rec.all()), "%s timeout %v set %q: the %d. listener is not released", what, timeout, when, round+1)
				c.Abort()
			}
		}
		elsewhere(c, b)
		if c.Intn(2) == 0 {
			g.stop()
			g.start()
		}
	}
	g.stop()
	c.Key(fmt.Sprint(what, when, timeout))
	c.Sample(map[string]any{"setting": what, "value": timeout.String(), "when": when})
}

func c21silence(c *vh.C, when string) {
	timeout := time.Duration(5+c.Intn(100)) * time.Second
	c21release(c, when, "silence", timeout, func(g *rig) { g.rcv.SetSilenceTimeout(timeout) })
}

func c21attachment(c *vh.C, when string) {
	timeout := time.Duration(5+c.Intn(100)) * time.Second
	c21release(c, when, "attachment", timeout, func(g *rig) { g.rcv.SetAttachmentTimeout(timeout) })
}

func c21scope(c *vh.C, when string) {
	g, b, _ := c21band(c, 45)
	old := g.scope
	next := &frameScope{}
	arrange(g, b, when, func() { g.rcv.SetScope(next); g.scope = next })
	before, beforeTimed := old.spectral.Load(), old.timed.Load()
	for round := 0; round < 2; round++ {
		if !g.run(b, 8, func() bool {
			active, _ := activeListeners(g.rec.all(), 30)
			return len(active) == 1
		}) {
			c.Failf("the signal is not attached (%s)", when)
			c.Abort()
		}
		n := next.timed.Load()
		g.feed(b.next)
		if next.timed.Load() < n+90 {
			c.Failf("the scope set %q shows %d frames of the %d. listener in 100 blocks", when, next.timed.Load()-n, round+1)
		}
		elsewhere(c, b)
		g.clock.Add(time.Hour)
		g.feed(b.next)
	}
	if old.spectral.Load() != before || old.timed.Load() != beforeTimed {
		c.Failf("the former scope is still used (scope set %q)", when)
	}
	next.inactive.Store(true) // nothing is shown on an inactive scope
	g.rcv.CenterFrequency()
	vh.WaitFor(vh.Idle)
	g.stop()
	c.Key(fmt.Sprint("scope", when, b.stations[0].offset))
}

func c21threshold(c *vh.C, when string) {
	snr := 14 + c.Float64()*20
	g, b, bin := c21band(c, 45)
	weak := 80 + c.Intn(350)
	for absInt(weak-bin) < 20 {
		weak = 80 + c.Intn(350)
	}
	b.stations = append(b.stations, newStation("", float64(weak-256)*93.75, b.amplitude(snr), 20, 48000, 0))
	g.rcv.SetPeakThreshold(41) // only the strong signal
	found := c.Intn(2) == 0
	// the average of the noise in dB is 2.5 dB below its power
	threshold := float32(snr + 5)
	if found {
		threshold = float32(snr - 5)
	}
	arrange(g, b, when, func() { g.rcv.SetPeakThreshold(threshold) })
	g.run(b, 8, nil)
	got := false
	for _, e := range g.rec.all() {
		got = got || e.Kind == "activated" && absInt(e.Freq-g.binFreq(weak)) < 50
	}
	if got != found {
		c.FailWith(fmt.Sprintf("%+v", g.rec.all()), "threshold %.1f dB set %q: a signal of %.1f dB is found: %t", threshold, when, snr, got)
	}
	// the threshold is shown relative to the noise floor
	a := g.scope.lastFrame().MagnitudeMarkers["threshold"]
	delta := float32(c.Intn(21) - 10)
	g.rcv.SetPeakThreshold(threshold + delta)
	g.run(b, 1, nil)
	if d := g.scope.lastFrame().MagnitudeMarkers["threshold"] - a - float64(delta); math.Abs(d) > 1.5 {
		c.Failf("the threshold shown in the scope changed by %.1f dB instead of %.1f dB", d+float64(delta), delta)
	}
	g.stop()
	c.Key(fmt.Sprint("threshold", when, threshold, found))
	c.Sample(map[string]any{"setting": "threshold", "value": threshold, "when": when, "snr": snr, "found": found})
}

func c21edge(c *vh.C, when string) {
	g, b, _ := c21band(c, 70)
	quiet := 60 + c.Intn(60) // quiet bins at the lower end of the spectrum
	loud := &loudBand{band: b, fft: dsp.NewFFT[float32](), quiet: quiet}
	edge := quiet + 5 + c.Intn(30)
	isLoud := c.Intn(2) == 0
	before := c.Intn(10)
	if !isLoud {
		edge, before = before, edge
	}
	g.rcv.SetEdgeWidth(before)
	arrange(g, b, when, func() { g.rcv.SetEdgeWidth(edge) })
	for k := 0; k < 2; k++ {
		g.feed(loud.next)
	}
	marker := g.scope.lastFrame().MagnitudeMarkers["threshold"]
	if c.Intn(2) == 0 {
		g.stop()
		g.start()
	}
	g.rcv.SetEdgeWidth(before)
	for k := 0; k < 2; k++ {
		g.feed(loud.next)
	}
	other := g.scope.lastFrame().MagnitudeMarkers["threshold"]
	d := marker - other
	if !isLoud {
		d = -d
	}
	if d < 10 {
		c.Failf("edge width %d set %q: threshold %.1f dB, with edge width %d %.1f dB, although the %d quiet bins at the edge are relevant for one of them only", edge, when, marker, before, other, quiet)
	}
	g.stop()
	c.Key(fmt.Sprint("edge", when, edge, quiet))
	c.Sample(map[string]any{"setting": "edge width", "value": edge, "when": when, "quiet bins": quiet, "thresholds": []float64{marker, other}})
}

// loudBand has much noise, except for some bins at its lower end.
type loudBand struct {
	band  *band
	fft   *dsp.FFT[float32]
	quiet int
	pool  [][]float32
}

func (l *loudBand) next() []float32 {
	const size = 512
	if len(l.pool) == 0 {
		for i := 0; i < 40; i++ {
			// noise as sum of a tone in each loud bin
			x := make([]float32, 2*size)
			re, im := make([]float64, size), make([]float64, size)
			for bin := 0; bin < size; bin++ {
				a := l.band.noise / 20
				if bin >= l.quiet {
					a = l.band.noise
				}
				a *= 0.5 + l.band.rnd.Float64()
				phase := l.band.rnd.Float64() * 2 * math.Pi
				for t := 0; t < size; t++ {
					s, c := math.Sincos(2*math.Pi*float64((bin-size/2)*t%size)/size + phase)
					re[t] += a * c
					im[t] += a * s
				}
			}
			for t := range re {
				x[2*t], x[2*t+1] = float32(re[t]), float32(im[t])
			}
			l.pool = append(l.pool, x)
		}
	}
	return append([]float32(nil), l.pool[l.band.rnd.Intn(len(l.pool))]...)
}

func c21center(c *vh.C, when string) {
	g, b, bin := c21band(c, 45)
	center := 14000000 + c.Intn(50000)
	from := 0
	arrange(g, b, when, func() {
		g.rcv.SetCenterFrequency(center)
		g.rcv.CenterFrequency()
		from = len(g.rec.all())
	})
	g.center = center
	for round := 0; round < 2; round++ {
		if !g.run(b, 8, func() bool {
			active, _ := activeListeners(g.rec.all(), 30)
			return len(active) == 1
		}) {
			c.Failf("the signal is not attached after the center frequency was set %q", when)
			c.Abort()
		}
		for _, e := range g.rec.all()[from:] {
			if e.Kind == "activated" && absInt(e.Freq-g.binFreq(bin)) > 50 {
				c.FailWith(fmt.Sprintf("%+v", g.rec.all()), "center frequency %d set %q: the signal in bin %d is reported on %d", center, when, bin, e.Freq)
				c.Abort()
			}
		}
		from = len(g.rec.all())
		bin = elsewhere(c, b)
		g.clock.Add(time.Hour)
		g.feed(b.next)
	}
	g.stop()
	c.Key(fmt.Sprint("center", when, center))
	c.Sample(map[string]any{"setting": "center frequency", "value": center, "when": when})
}

// c21history changes the timeouts and the center frequency at random while several signals are attached.
func c21history(c *vh.C) {
	g := newRig(c, rx.StrainMode, 48000, 512, 7000000)
	b := newBand(48000, 512, 2e-3, c.Rand)
	bins := b.addCarriers(c, 3+c.Intn(10), 10, 40, 40)
	g.rcv.SetSilenceTimeout(time.Hour)
	g.rcv.SetAttachmentTimeout(time.Hour)
	g.start()
	var log []string
	for k := 0; k < 6; k++ {
		center := g.center
		events := g.rec.all()
		n := 1 + c.Intn(len(bins)+2)
		g.run(b, n, nil)
		active, err := activeListeners(g.rec.all(), 30)
		if err != nil {
			c.FailWith(fmt.Sprintf("%+v", g.rec.all()), "%v", err)
			c.Abort()
		}
		if len(active) != min(n, len(bins)) {
			c.FailWith(map[string]any{"log": log, "events": fmt.Sprintf("%+v", g.rec.all())}, "%d of %d signals are attached after %d spectra, center %d (%v)", len(active), len(bins), n, center, log)
			c.Abort()
		}
		for _, e := range g.rec.all()[len(events):] {
			ok := false
			for _, bin := range bins {
				ok = ok || absInt(e.Freq-g.binFreq(bin)) <= 50
			}
			if !ok {
				c.FailWith(map[string]any{"log": log, "events": fmt.Sprintf("%+v", g.rec.all())}, "%+v with center %d (%v)", e, center, log)
				c.Abort()
			}
		}
		g.center = 7000000 + c.Intn(100000)
		if g.center == center {
			g.center++
		}
		g.rcv.SetCenterFrequency(g.center)
		g.rcv.CenterFrequency()
		log = append(log, fmt.Sprint(n, " attached, center ", g.center))
		if active, _ := activeListeners(g.rec.all(), 30); len(active) > 0 {
			c.FailWith(map[string]any{"log": log, "events": fmt.Sprintf("%+v", g.rec.all())}, "listeners are active on the frequencies of the former center: %+v", active)
			c.Abort()
		}
		c.Count("center frequency changes with listeners", 1)
	}
	g.stop()
	c.Key(fmt.Sprint(log))
}
