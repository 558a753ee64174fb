package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"

	"verif/ref"
	"verif/vh"
)

// shownEvent is what the receiver does and shows, in its order.
type shownEvent struct {
	kind     string // activated, deactivated, time, spectral
	listener string
	freq     int
	time     *scope.TimeFrame
	spectral *scope.SpectralFrame
}

type shownLog struct {
	mu     sync.Mutex
	events []shownEvent
}

func (l *shownLog) add(e shownEvent) {
	l.mu.Lock()
	l.events = append(l.events, e)
	l.mu.Unlock()
}
func (l *shownLog) take() []shownEvent {
	l.mu.Lock()
	defer l.mu.Unlock()
	result := l.events
	l.events = nil
	return result
}
func (l *shownLog) ListenerActivated(id string, f int) {
	l.add(shownEvent{kind: "activated", listener: id, freq: f})
}
func (l *shownLog) ListenerDeactivated(id string, f int) {
	l.add(shownEvent{kind: "deactivated", listener: id, freq: f})
}
func (l *shownLog) CallsignDecoded(string, string, int, int, int)     {}
func (l *shownLog) CallsignSpotted(id string, call string, f int)     {}
func (l *shownLog) SpotTimeout(id string, call string, frequency int) {}

// seenListener is an active listener as far as it can be seen.
type seenListener struct {
	id     string
	bins   []int // more than one if the frequency is close to the border of two bins
	states []bool
	debug  []bool
	alone  bool // it was the only listener since it was activated
	last   float64
	count  float64
}

type c37rig struct {
	*rig
	log       *shownLog
	mode      rx.ReceiverMode
	shop      *ref.Workshop
	threshold float64
	debounce  int
	active    []*seenListener
	vfoBin    int
	fed       []ref.Working // the current batch
	frames    []*scope.SpectralFrame
	peaks     map[int]bool // bins that were shown as peaks since the last start
	pending   []shownEvent // activations that are to be explained by a frame

	debouncedRun int
}

func newC37(c *vh.C, mode rx.ReceiverMode, rate, block int) *c37rig {
	g := &c37rig{rig: newRig(c, mode, rate, block, 7000000+c.Intn(20000)), log: &shownLog{}, mode: mode, threshold: 15, debounce: 1, vfoBin: -1}
	g.rcv.AddReporter(g.log)
	g.scope.onTime = func(f *scope.TimeFrame) { g.log.add(shownEvent{kind: "time", time: f}) }
	g.scope.onFrame = func(f *scope.SpectralFrame) { g.log.add(shownEvent{kind: "spectral", spectral: f}) }
	g.shop = &ref.Workshop{N: block, Edge: 70}
	return g
}

// begin a session.
func (g *c37rig) begin(rate, block int) {
	g.rate, g.block = rate, block
	g.shop = &ref.Workshop{N: block, Edge: g.shop.Edge}
	g.fed, g.peaks, g.pending = nil, map[int]bool{}, nil
	g.start()
	g.rcv.CenterFrequency() // the receiver is tuned now
	if g.mode == rx.DecodeMode && g.vfoBin >= 0 {
		g.changes()
	}
}

func (g *c37rig) end() {
	g.stop()
}

// candidates are the bins a frequency may belong to.
func (g *c37rig) candidates(freq int) []int {
	width := float64(g.rate) / float64(g.block)
	pos := (float64(freq-g.center))/width + float64(g.block)/2
	result := []int{}
	for _, d := range []float64{0, -2 / width, 2 / width} {
		b := min(max(int(math.Round(pos+d)), 0), g.block-1)
		if len(result) == 0 || result[len(result)-1] != b && result[0] != b {
			result = append(result, b)
		}
	}
	return result
}

func (g *c37rig) activity(e shownEvent) bool {
	switch e.kind {
	case "activated":
		g.active = append(g.active, &seenListener{id: e.listener, bins: g.candidates(e.freq), last: -1})
		for _, l := range g.active {
			l.alone = len(g.active) == 1
		}
		g.pending = append(g.pending, e)
		return true
	case "deactivated":
		for i, l := range g.active {
			if l.id == e.listener {
				g.active = append(g.active[:i], g.active[i+1:]...)
				return true
			}
		}
		g.c.Failf("%s is deactivated, but was not active", e.listener)
		g.c.Abort()
	}
	return false
}

// changes processes what happened outside of the processing of data.
func (g *c37rig) changes() {
	for _, e := range g.log.take() {
		if !g.activity(e) {
			g.c.Failf("a frame without data: %+v", e)
			g.c.Abort()
		}
	}
}

const dBtolerance = 0.03

// batch feeds a batch and checks everything that is shown.
func (g *c37rig) batch(b *band) {
	g.fed = g.fed[:0]
	g.clock.Add(g.batchDuration())
	g.feed(func() []float32 {
		data := b.next()
		g.fed = append(g.fed, g.shop.Block(data))
		return data
	})
	g.judge(g.log.take(), true)
}

func (g *c37rig) judge(events []shownEvent, complete bool) {
	c := g.c
	pos := 0
	next := func() *shownEvent { // the next frame
		for pos < len(events) && g.activity(events[pos]) {
			pos++
		}
		if pos == len(events) {
			return nil
		}
		return &events[pos]
	}
	detail := func(extra ...any) any {
		return map[string]any{"mode": g.mode, "rate": g.rate, "block": g.block, "threshold": g.threshold, "edge": g.shop.Edge, "debounce": g.debounce, "more": fmt.Sprintf("%+v", extra)}
	}
	for i, w := range g.fed {
		// releases after the previous block
		for pos < len(events) && events[pos].kind == "deactivated" {
			g.activity(events[pos])
			pos++
		}
		listeners := append([]*seenListener(nil), g.active...)
		want := w.Floor + w.Deviation
		used := map[*seenListener]bool{}
		for k := 0; k < len(listeners); k++ {
			ticks := map[string]*scope.TimeFrame{}
			var demod *scope.TimeFrame
			for demod == nil {
				e := next()
				if e == nil || e.kind != "time" {
					if !complete && e == nil {
						return
					}
					c.FailWith(detail(e), "block %d: %d listeners are active, but only %d show their signal", i, len(listeners), k)
					c.Abort()
				}
				if e.time.Stream == "demod" {
					demod = e.time
				} else {
					if ticks[string(e.time.Stream)] != nil {
						c.FailWith(detail(e), "two frames of the stream %s for one block", e.time.Stream)
						c.Abort()
					}
					ticks[string(e.time.Stream)] = e.time
				}
				pos++
			}
			value, threshold := demod.Values["value"], demod.Values["threshold"]
			if math.Abs(threshold-want) > dBtolerance {
				c.FailWith(detail(w.Floor, w.Deviation), "block %d (%d since the start): the threshold of the demodulator is shown as %v, expected %v", i, len(g.shop.Floors)-len(g.fed)+i+1, threshold, want)
				c.Abort()
			}
			var who *seenListener
			best := math.Inf(1)
			for _, l := range listeners {
				if used[l] {
					continue
				}
				for _, bin := range l.bins {
					if d := math.Abs(w.Spectrum[bin] - value); d < best {
						best, who = d, l
					}
				}
			}
			if best > dBtolerance {
				var expected []string
				for _, l := range listeners {
					for _, bin := range l.bins {
						expected = append(expected, fmt.Sprintf("%s in bin %d: %.3f", l.id, bin, w.Spectrum[bin]))
					}
				}
				c.FailWith(detail(), "block %d: the signal of a listener is shown with the value %v, but these are the signals: %s", i, value, strings.Join(expected, ", "))
				c.Abort()
			}
			used[who] = true
			state, debounced := demod.Values["state"] > 0, demod.Values["debounced"] > 0
			if state != (value > threshold) {
				c.FailWith(detail(), "block %d: the value %v with the threshold %v is shown with the state %v", i, value, threshold, demod.Values["state"])
				c.Abort()
			}
			for _, stream := range []string{"decode", "signal_timing", "gap_timing", "signal"} {
				f := ticks[stream]
				if f == nil {
					c.FailWith(detail(ticks), "block %d: the decoder does not show its stream %s", i, stream)
					c.Abort()
				}
				if (f.Values["state"] > 0) != debounced {
					c.FailWith(detail(), "block %d: the stream %s shows the state %v, but the debounced state is %v", i, stream, f.Values["state"], debounced)
					c.Abort()
				}
			}
			if len(listeners) == 1 && who.alone {
				g.judgeDebounce(who, state, debounced, ticks)
			}
			c.Count("signals", 1)
			if debounced != state {
				c.Count("debounced signals", 1)
			}
		}
	}
	if !complete {
		if e := next(); e != nil {
			c.FailWith(detail(e), "an unexpected frame")
			c.Abort()
		}
		return
	}
	e := next()
	if e == nil || e.kind != "spectral" || e.spectral.Stream != "spectrum" {
		c.FailWith(detail(e), "no spectrum after %d blocks", len(g.fed))
		c.Abort()
	}
	pos++
	g.judgeSpectrum(e.spectral)
	if e := next(); e != nil {
		c.FailWith(detail(e), "an unexpected frame after the spectrum")
		c.Abort()
	}
}

func (g *c37rig) judgeDebounce(l *seenListener, state, debounced bool, ticks map[string]*scope.TimeFrame) {
	c := g.c
	l.states = append(l.states, state)
	previous := false
	if len(l.debug) > 0 {
		previous = l.debug[len(l.debug)-1]
	}
	want := previous
	if g.debounce < 2 {
		want = state
	} else if state != previous {
		run := 0
		for i := len(l.states) - 1; i >= 0 && l.states[i] == state; i-- {
			run++
		}
		want = previous
		if run >= g.debounce {
			want = state
		}
	}
	if want != debounced {
		c.FailWith(l.states[max(0, len(l.states)-20):], "debounce threshold %d: the debounced state is shown as %v after %v", g.debounce, debounced, l.states[max(0, len(l.states)-g.debounce-1):])
		c.Abort()
	}
	l.debug = append(l.debug, debounced)
	if debounced != previous {
		l.count = 0
	} else if len(l.debug) > 1 {
		l.count++
	}
	d := ticks["decode"].Values["duration"]
	on, off := ticks["signal_timing"].Values["on_duration"], ticks["gap_timing"].Values["off_duration"]
	if len(l.debug) > 1 && (d != l.count && l.last >= 0 && d != l.last+1) || debounced && (on != d || off != 0) || !debounced && (on != 0 || off != d) {
		c.Failf("state %v, %v blocks after the last change: shown durations %v, signal %v, gap %v", debounced, l.count, d, on, off)
		c.Abort()
	}
	l.last = d
	if len(l.states) > 1000 {
		l.states, l.debug = append([]bool(nil), l.states[500:]...), append([]bool(nil), l.debug[500:]...)
	}
}

func (g *c37rig) judgeSpectrum(f *scope.SpectralFrame) {
	c := g.c
	if len(f.Values) != g.block {
		c.Failf("a spectrum with %d values, the block size is %d", len(f.Values), g.block)
		c.Abort()
	}
	for k, v := range f.Values {
		want := 0.0
		for _, w := range g.fed {
			want += w.Spectrum[k]
		}
		want /= float64(len(g.fed))
		if !(math.Abs(v-want) <= dBtolerance) {
			c.FailWith(f.Values, "bin %d of %d: the spectrum shows %v, the mean of the last %d blocks is %v (%d active listeners)", k, g.block, v, len(g.fed), want, len(g.active))
			c.Abort()
		}
	}
	threshold := f.MagnitudeMarkers["threshold"]
	if want := g.fed[len(g.fed)-1].Floor + g.threshold; !(math.Abs(threshold-want) <= dBtolerance) {
		c.Failf("the spectrum shows the threshold %v, expected %v", threshold, want)
		c.Abort()
	}
	bin := int(f.FrequencyMarkers["signal_bin"])
	ok := len(g.active) == 0 && bin == -1
	var bins []int
	for _, l := range g.active {
		for _, b := range l.bins {
			bins = append(bins, b)
			ok = ok || b == bin
		}
	}
	if !ok {
		c.Failf("the spectrum shows a signal in bin %d, the active listeners are in the bins %v", bin, bins)
		c.Abort()
	}
	if g.mode == rx.DecodeMode && bin != g.vfoBin {
		c.Failf("the spectrum shows a signal in bin %d, the VFO is in bin %d", bin, g.vfoBin)
		c.Abort()
	}

	// listeners are attached to shown peaks
	from := -1
	for k := 0; k <= g.block; k++ {
		above := k < g.block && f.Values[k] > threshold-0.001
		if above && from < 0 {
			from = k
		}
		if !above && from >= 0 {
			top := math.Inf(-1)
			for j := from; j < k; j++ {
				top = max(top, f.Values[j])
			}
			for j := from; j < k; j++ {
				if f.Values[j] >= top-0.001 {
					g.peaks[j] = true
				}
			}
			from = -1
		}
	}
	if g.mode == rx.StrainMode {
		for _, e := range g.pending {
			found := false
			for _, b := range g.candidates(e.freq) {
				found = found || g.peaks[b]
			}
			if !found {
				var known []int
				for b := range g.peaks {
					known = append(known, b)
				}
				sort.Ints(known)
				c.Failf("a listener is attached to bin %v, but the spectrum never showed a peak there, only in %v", g.candidates(e.freq), known)
				c.Abort()
			}
			c.Count("attachments", 1)
		}
	}
	g.pending = nil
	c.Count("spectra", 1)
	c.Eval(1)
}

func c37(r *vh.Run) {
	r.Rule("a case is a receiver in strain or decode mode with random block sizes and sample rates, 0 to 40 carriers and keyed stations, and changes of VFO, threshold, edge width and debounce between two spectra, with restarts in the middle of a spectrum with another block size, and times without an active scope; every frame is compared with values computed from the fed data by an own Fourier transform and noise measurement; distinct: (mode, block sizes, spectra)")
	provideData(allData)
	n := r.N(60, 700)
	r.Parallel(6, n, func(i int) {
		r.Case(fmt.Sprintf("scope/%d", i), c37case)
	})
	r.Parallel(6, r.N(12, 60), func(i int) {
		r.Case(fmt.Sprintf("inactive/%d", i), c37inactive)
	})
}

func c37band(c *vh.C, rate, block int, stations int) *band {
	b := newBand(rate, block, math.Pow(10, c.Float64()*6-8), c.Rand)
	width := float64(rate) / float64(block)
	for i := 0; i < stations; i++ {
		bin := 5 + c.Intn(block-10)
		offset := (float64(bin) - float64(block)/2 + (c.Float64()-0.5)*0.9) * width
		text := ""
		if c.Intn(2) == 0 {
			text = "cq cq de dl1abc dl1abc pse k "
		}
		b.stations = append(b.stations, newStation(text, offset, b.amplitude(15+c.Float64()*35), 15+c.Float64()*15, rate, c.Intn(block*100)))
	}
	return b
}

func c37format(c *vh.C) (int, int) {
	block := []int{256, 512, 512, 1024, 320, 600}[c.Intn(6)]
	return []int{48000, 48000, 96000, 24000}[c.Intn(4)], block
}

func c37case(c *vh.C) {
	mode := []rx.ReceiverMode{rx.StrainMode, rx.DecodeMode}[c.Intn(2)]
	rate, block := c37format(c)
	g := newC37(c, mode, rate, block)
	key := fmt.Sprint(mode)
	sessions := 1 + c.Intn(3)
	vfo := 0
	setVFO := func() {
		bin := c.Intn(g.block)
		vfo = g.binFreq(bin) - g.center
		c.Within("SetVFOOffset", func() { g.rcv.SetVFOOffset(vfo); g.rcv.CenterFrequency() })
		g.vfoBin = bin
	}
	for s := 0; s < sessions; s++ {
		if s > 0 {
			rate, block = c37format(c)
			if mode == rx.DecodeMode && g.vfoBin >= 0 { // the bin of the same frequency
				pos := float64(vfo)*float64(block)/float64(rate) + float64(block)/2
				if pos < 1 || pos > float64(block)-2 || math.Abs(math.Abs(pos-math.Floor(pos))-0.5) < 0.1 {
					rate, block = g.rate, g.block
				} else {
					g.vfoBin = int(math.Round(pos))
				}
			}
		}
		if c.Intn(2) == 0 || s == 0 {
			g.shop.Edge = c.Intn(90)
			c.Within("SetEdgeWidth", func() { g.rcv.SetEdgeWidth(g.shop.Edge) })
		}
		stations := c.Intn(8)
		if c.Intn(5) == 0 {
			stations = 35 + c.Intn(10) // more than listeners
		}
		if mode == rx.DecodeMode && s == 0 && c.Intn(2) == 0 {
			g.rate, g.block = rate, block
			setVFO()
		}
		b := c37band(c, rate, block, stations)
		g.begin(rate, block)
		key += fmt.Sprintf(" %d/%d", block, rate)
		batches := 3 + c.Intn(5)
		if stations > 30 && mode == rx.StrainMode {
			batches = 34 + c.Intn(6)
		}
		for i := 0; i < batches; i++ {
			g.batch(b)
			key += fmt.Sprintf(".%d", len(g.active))
			switch c.Intn(8) {
			case 0:
				g.threshold = float64(8 + c.Intn(15))
				c.Within("SetPeakThreshold", func() { g.rcv.SetPeakThreshold(float32(g.threshold)) })
			case 1:
				g.shop.Edge = c.Intn(100)
				c.Within("SetEdgeWidth", func() { g.rcv.SetEdgeWidth(g.shop.Edge) })
			case 2:
				g.debounce = c.Intn(5)
				c.Within("SetSignalDebounce", func() { g.rcv.SetSignalDebounce(g.debounce); g.rcv.CenterFrequency() })
			case 3, 4:
				if mode == rx.DecodeMode {
					setVFO()
					g.changes()
				}
			case 5:
				if mode == rx.StrainMode {
					// all listeners are released with the next block
					g.clock.Add(3 * 60e9)
				}
			}
		}
		if c.Intn(2) == 0 && s < sessions-1 {
			// leave an incomplete spectrum
			g.fed = nil
			for i := 0; i < 1+c.Intn(99); i++ {
				data := b.next()
				g.fed = append(g.fed, g.shop.Block(data))
				g.rcv.IQData(g.rate, data)
			}
			if c.Intn(2) == 0 {
				vh.WaitFor(vh.Idle)
			}
		} else {
			g.fed = nil
		}
		g.end()
		g.judge(g.log.take(), false)
		if len(g.active) > 0 {
			c.Failf("%d listeners are active after Stop", len(g.active))
			c.Abort()
		}
	}
	c.Key(key)
	c.Sample(key)
}

// While the scope is not active nothing is shown, but the measurement goes on.
func c37inactive(c *vh.C) {
	rate, block := c37format(c)
	g := newC37(c, rx.DecodeMode, rate, block)
	bin := c.Intn(block)
	g.rcv.SetVFOOffset(g.binFreq(bin) - g.center)
	g.vfoBin = bin
	b := c37band(c, rate, block, 1+c.Intn(5))
	g.begin(rate, block)
	for round := 0; round < 4; round++ {
		g.batch(b)
		g.scope.inactive.Store(true)
		g.fed = nil
		hidden := 1 + c.Intn(99)
		for i := 0; i < hidden; i++ {
			data := b.next()
			g.fed = append(g.fed, g.shop.Block(data))
			g.rcv.IQData(g.rate, data)
		}
		if !vh.WaitForD(vh.Idle, vh.Patience) {
			c.Inconclusive("the receiver is not idle")
			c.Abort()
		}
		if events := g.log.take(); len(events) > 0 {
			c.FailWith(fmt.Sprintf("%+v", events[0]), "%d frames are shown on an inactive scope", len(events))
			c.Abort()
		}
		g.scope.inactive.Store(false)
		rest := []ref.Working{}
		before := g.scope.spectral.Load()
		for i := hidden; i < batch; i++ {
			data := b.next()
			rest = append(rest, g.shop.Block(data))
			g.rcv.IQData(g.rate, data)
		}
		c.Reach(func() bool { return g.scope.spectral.Load() > before }, nil, "no spectrum after %d blocks", batch)
		all := append(g.fed, rest...)
		g.fed = rest
		for _, l := range g.active {
			l.alone = false // the state of the debouncer is not known
		}
		events := g.log.take()
		last := events[len(events)-1]
		g.judge(events[:len(events)-1], false)
		g.fed = all
		if last.kind != "spectral" {
			c.Failf("the last frame of a batch is %+v", last)
			c.Abort()
		}
		g.judgeSpectrum(last.spectral)
		c.Count("blocks without scope", hidden)
		c.Key(fmt.Sprint("inactive ", block, rate, bin, hidden))
	}
	g.end()
}
