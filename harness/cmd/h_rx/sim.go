package main

import (
	"fmt"
	"math"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"

	"verif/morse"
	"verif/vh"
)

// ---- signals

// station sends a text again and again, or a carrier if the text is empty.
type station struct {
	call   string
	offset float64 // Hz from the center
	amp    float64
	wpm    float64
	text   string
	start  int // sample at which it starts
	end    int // sample at which it stops, 0: never

	period int
	on     [][2]int // marks within the period
	phase  complex128
	step   complex128
}

func newStation(text string, offset, amp, wpm float64, rate int, start int) *station {
	s := &station{text: text, amp: amp, wpm: wpm, start: start, phase: 1}
	s.tune(offset, rate)
	if text != "" {
		unit := morse.DitSeconds(wpm) * float64(rate)
		pos := 0.0
		for _, m := range morse.Encode(text) {
			if m.On {
				s.on = append(s.on, [2]int{int(pos), int(pos + m.Units*unit)})
			}
			pos += m.Units * unit
		}
		s.period = int(pos)
	}
	return s
}

func (s *station) tune(offset float64, rate int) {
	sin, cos := math.Sincos(2 * math.Pi * offset / float64(rate))
	s.offset, s.step = offset, complex(cos, sin)
}

// envelope of the given sample, with ramps of 4 ms.
func (s *station) envelope(n int, hint *int, ramp int) float64 {
	if n < s.start || s.end > 0 && n >= s.end {
		return 0
	}
	if s.text == "" {
		return 1
	}
	n = (n - s.start) % s.period
	i := *hint
	if i > 0 && n < s.on[i-1][1]+ramp { // the next period
		i = 0
	}
	for i < len(s.on) && n >= s.on[i][1]+ramp {
		i++
	}
	*hint = i
	if i >= len(s.on) || n < s.on[i][0] {
		return 0
	}
	d := min(n-s.on[i][0], s.on[i][1]+ramp-n)
	if d >= ramp {
		return 1
	}
	return 0.5 - 0.5*math.Cos(math.Pi*float64(d)/float64(ramp))
}

// band is everything that is received.
type band struct {
	rate, block int
	stations    []*station
	noise       float64 // standard deviation per component
	pool        []float32
	pos         int
	hints       []int
	rnd         *rand.Rand
}

func newBand(rate, block int, noise float64, rnd *rand.Rand) *band {
	b := &band{rate: rate, block: block, noise: noise, rnd: rnd, pool: make([]float32, 1<<16)}
	for i := range b.pool {
		b.pool[i] = float32(rnd.NormFloat64() * noise)
	}
	return b
}

// amplitude of a signal that is the given number of dB above the noise of one bin.
func (b *band) amplitude(snr float64) float64 {
	return b.noise * math.Sqrt(2*math.Pow(10, snr/10)/float64(b.block))
}

func (b *band) next() []float32 {
	result := make([]float32, 2*b.block)
	if b.noise > 0 {
		off := b.rnd.Intn(len(b.pool) - len(result))
		copy(result, b.pool[off:])
		off2 := b.rnd.Intn(len(b.pool) - len(result)) // two pieces, so that blocks do not repeat
		for i := range result {
			result[i] = (result[i] + b.pool[off2+i]) * 0.70710678
		}
	}
	for len(b.hints) < len(b.stations) {
		b.hints = append(b.hints, 0)
	}
	ramp := b.rate / 250
	for j, s := range b.stations {
		p := s.phase
		for i := 0; i < b.block; i++ {
			if e := s.envelope(b.pos+i, &b.hints[j], ramp) * s.amp; e != 0 {
				result[2*i] += float32(e * real(p))
				result[2*i+1] += float32(e * imag(p))
			}
			p *= s.step
		}
		s.phase = p / complex(math.Hypot(real(p), imag(p)), 0)
	}
	b.pos += b.block
	return result
}

// ---- receiver

// rxEvent is a callback of the receiver.
type rxEvent struct {
	At       time.Duration // clock since the start
	Kind     string        // activated, deactivated, decoded, spotted, timeout
	Listener string
	Call     string
	Freq     int
	Count    int
	Weight   int
}

type rxRecorder struct {
	clock  rx.Clock
	start  time.Time
	mu     sync.Mutex
	events []rxEvent
}

func (r *rxRecorder) add(e rxEvent) {
	r.mu.Lock()
	e.At = r.clock.Now().Sub(r.start)
	r.events = append(r.events, e)
	r.mu.Unlock()
}
func (r *rxRecorder) all() []rxEvent {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]rxEvent(nil), r.events...)
}
func (r *rxRecorder) ListenerActivated(l string, f int) {
	r.add(rxEvent{Kind: "activated", Listener: l, Freq: f})
}
func (r *rxRecorder) ListenerDeactivated(l string, f int) {
	r.add(rxEvent{Kind: "deactivated", Listener: l, Freq: f})
}
func (r *rxRecorder) CallsignDecoded(l, c string, f, n, w int) {
	r.add(rxEvent{Kind: "decoded", Listener: l, Call: c, Freq: f, Count: n, Weight: w})
}
func (r *rxRecorder) CallsignSpotted(l, c string, f int) {
	r.add(rxEvent{Kind: "spotted", Listener: l, Call: c, Freq: f})
}
func (r *rxRecorder) SpotTimeout(l, c string, f int) {
	r.add(rxEvent{Kind: "timeout", Listener: l, Call: c, Freq: f})
}

// active listeners according to the events: identifier -> frequency; an error if the events are inconsistent.
func activeListeners(events []rxEvent, limit int) (map[string]rxEvent, error) {
	active := map[string]rxEvent{}
	for _, e := range events {
		a, ok := active[e.Listener]
		switch e.Kind {
		case "activated":
			if ok {
				return nil, fmt.Errorf("listener %s is activated twice: %+v, %+v", e.Listener, a, e)
			}
			for _, o := range active {
				if o.Freq == e.Freq {
					return nil, fmt.Errorf("two listeners on the same frequency: %+v, %+v", o, e)
				}
			}
			active[e.Listener] = e
			if len(active) > limit {
				return nil, fmt.Errorf("%d active listeners", len(active))
			}
		case "deactivated":
			if !ok {
				return nil, fmt.Errorf("listener %s is deactivated, but it is not active: %+v", e.Listener, e)
			}
			if a.Freq != e.Freq {
				return nil, fmt.Errorf("listener %s is activated on %d, but deactivated on %d", e.Listener, a.Freq, e.Freq)
			}
			delete(active, e.Listener)
		default:
			if !ok {
				return nil, fmt.Errorf("a report of the inactive listener %s: %+v", e.Listener, e)
			}
			if a.Freq != e.Freq {
				return nil, fmt.Errorf("a report on %d of the listener %s on %d", e.Freq, e.Listener, a.Freq)
			}
		}
	}
	return active, nil
}

// frameScope counts the spectral frames: there is one for every 100 blocks.
type frameScope struct {
	inactive atomic.Bool
	spectral atomic.Int64
	timed    atomic.Int64
	mu       sync.Mutex
	last     *scope.SpectralFrame
	onTime   func(f *scope.TimeFrame)

	onSpectral func()
	onFrame    func(f *scope.SpectralFrame)
}

func (s *frameScope) Active() bool { return !s.inactive.Load() }
func (s *frameScope) ShowTimeFrame(f *scope.TimeFrame) {
	s.timed.Add(1)
	if s.onTime != nil {
		s.onTime(f)
	}
}
func (s *frameScope) ShowSpectralFrame(f *scope.SpectralFrame) {
	s.mu.Lock()
	s.last = f
	s.mu.Unlock()
	if s.onFrame != nil {
		s.onFrame(f)
	}
	s.spectral.Add(1)
	if s.onSpectral != nil {
		s.onSpectral()
	}
}
func (s *frameScope) lastFrame() *scope.SpectralFrame {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.last
}

const batch = 100 // blocks per spectral frame

// rig is a receiver under observation.
type rig struct {
	c           *vh.C
	clock       *fakeClock
	rec         *rxRecorder
	scope       *frameScope
	rcv         *rx.Receiver[float32, int]
	rate, block int
	center      int
}

func newRig(c *vh.C, mode rx.ReceiverMode, rate, block, center int) *rig {
	clock := newClock()
	r := &rig{c: c, clock: clock, rate: rate, block: block, center: center,
		rec: &rxRecorder{clock: clock, start: clock.Now()}, scope: &frameScope{}}
	r.rcv = rx.NewReceiver[float32, int]("", mode, clock)
	r.rcv.AddReporter(r.rec)
	r.rcv.SetScope(r.scope)
	r.rcv.SetCenterFrequency(center)
	return r
}

func (r *rig) batchDuration() time.Duration {
	return time.Duration(float64(batch*r.block) / float64(r.rate) * float64(time.Second))
}

// binFreq is the frequency of the center of a bin.
func (r *rig) binFreq(bin int) int {
	return int(math.Round(float64(r.center) + (float64(bin)-float64(r.block)/2)*float64(r.rate)/float64(r.block)))
}

// feed exactly one batch and wait until it is processed.
func (r *rig) feed(next func() []float32) {
	before := r.scope.spectral.Load()
	for i := 0; i < batch; i++ {
		r.rcv.IQData(r.rate, next())
	}
	if !vh.WaitFor(func() bool { return r.scope.spectral.Load() > before }) {
		blocked, _ := vh.BlockedInSdrainer()
		r.c.FailWith(map[string]any{"blocked": blocked}, "%d blocks were not processed within %v", batch, vh.Patience)
		r.c.Abort()
	}
	r.c.Count("blocks", batch)
}

// run feeds batches of the band, the clock follows.
func (r *rig) run(b *band, batches int, until func() bool) bool {
	for i := 0; i < batches; i++ {
		r.clock.Add(r.batchDuration())
		r.feed(b.next)
		if until != nil && until() {
			return true
		}
	}
	return false
}

func (r *rig) start() { r.c.Within("Start", func() { r.rcv.Start(r.rate, r.block) }) }
func (r *rig) stop()  { r.c.Within("Stop", r.rcv.Stop) }
