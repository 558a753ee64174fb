package main

import (
	"bytes"
	"fmt"
	"math"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/ftl/sdrainer/cw"
	"github.com/ftl/sdrainer/scope"

	"verif/morse"
	"verif/vh"
)

// traceScope records all frames.
type traceScope struct {
	mu     sync.Mutex
	off    bool
	frames []*scope.TimeFrame
}

func (s *traceScope) Active() bool { s.mu.Lock(); defer s.mu.Unlock(); return !s.off }
func (s *traceScope) ShowTimeFrame(f *scope.TimeFrame) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.frames = append(s.frames, f)
}
func (s *traceScope) ShowSpectralFrame(*scope.SpectralFrame) {}
func (s *traceScope) take() []*scope.TimeFrame {
	s.mu.Lock()
	defer s.mu.Unlock()
	result := s.frames
	s.frames = nil
	return result
}

// timing follows the decoder: it only knows the key states and the thresholds that are shown.
type timing struct {
	now, edge int // edge: the tick of the last edge
	state     bool
	active    bool // the end of the character was not yet detected
	symbols   string
	invalid   bool

	low, high map[string]float64 // range of the durations that were seen, including the preset
	text      string
	first     bool
	decode    map[string]rune

	words, noWords, unclear int
}

func newTiming() *timing {
	t := &timing{decode: map[string]rune{}, low: map[string]float64{}, high: map[string]float64{}, first: true}
	for r, code := range morse.Table {
		t.decode[code] = r
	}
	return t
}

func (t *timing) character() {
	switch r, ok := t.decode[t.symbols]; {
	case t.symbols == "":
	case t.invalid || !ok:
		t.text += string(unknown)
	default:
		t.text += string(r)
	}
	t.symbols, t.invalid = "", false
}

var timingStreams = []string{"decode", "gap_timing", "signal", "signal_timing"}

// tick compares the frames of one tick with the key state, and follows the decoder. Returns the candidates for the text that
// is written with this tick.
func (t *timing) tick(state bool, frames []*scope.TimeFrame) (candidates []string, err error) {
	by := map[string]map[scope.ChannelID]float64{}
	for _, f := range frames {
		if _, ok := by[string(f.Stream)]; ok {
			return nil, fmt.Errorf("two frames of the stream %s in one tick", f.Stream)
		}
		by[string(f.Stream)] = f.Values
		if d := time.Since(f.Timestamp); d < 0 || d > vh.Patience {
			return nil, fmt.Errorf("the timestamp of the frame is %v old", d)
		}
	}
	var got []string
	for name := range by {
		got = append(got, name)
	}
	slices.Sort(got)
	if !slices.Equal(got, timingStreams) {
		return nil, fmt.Errorf("frames of the streams %v in one tick", got)
	}
	t.now++
	edge := state != t.state
	last := t.now - t.edge
	if edge {
		t.edge = t.now
		t.state = state
		t.active = true
	}
	current := t.now - t.edge
	on, off, number := 0, current, 0.0
	if state {
		on, off, number = current, 0, 1
	}
	for _, x := range []struct {
		stream  string
		channel scope.ChannelID
		want    float64
	}{
		{"decode", "state", number}, {"signal_timing", "state", number}, {"gap_timing", "state", number}, {"signal", "state", number},
		{"decode", "duration", float64(current)}, {"signal_timing", "on_duration", float64(on)}, {"gap_timing", "off_duration", float64(off)},
		{"decode", "on_threshold", by["signal_timing"]["on_threshold"]},
	} {
		if got, ok := by[x.stream][x.channel]; !ok || got != x.want {
			return nil, fmt.Errorf("%s of the stream %s is %v (%v) instead of %v", x.channel, x.stream, got, ok, x.want)
		}
	}
	onThreshold, onInvalid := by["signal_timing"]["on_threshold"], by["signal_timing"]["on_threshold_high_2"]
	offThreshold, offLow := by["gap_timing"]["off_threshold"], by["gap_timing"]["off_threshold_low"]

	// the thresholds stay in the range of the timing that was seen, the preset is the first low threshold
	for _, kind := range []string{"on", "off"} {
		v := by[map[string]string{"on": "signal_timing", "off": "gap_timing"}[kind]]
		lowT, highT := v[scope.ChannelID(kind+"_threshold_low")], v[scope.ChannelID(kind+"_threshold_high")]
		thr := v[scope.ChannelID(kind+"_threshold")]
		if !(lowT <= thr && thr <= highT) {
			return nil, fmt.Errorf("the %s threshold %v is not between %v and %v", kind, thr, lowT, highT)
		}
		if t.first {
			t.low[kind], t.high[kind] = lowT, highT
		}
		if edge && state == (kind == "off") && last >= 2 {
			t.low[kind], t.high[kind] = min(t.low[kind], float64(last)), max(t.high[kind], float64(last))
		}
		if lowT < t.low[kind]-1e-9 || highT > t.high[kind]+1e-9 {
			return nil, fmt.Errorf("the %s thresholds %v and %v are outside of the range of the timing that was seen, %v to %v", kind, lowT, highT, t.low[kind], t.high[kind])
		}
	}
	t.first = false

	t.text = ""
	optional := false
	if edge && last >= 2 { // glitches are ignored
		d := float64(last)
		switch {
		case !state && d >= onInvalid:
			t.invalid = true
		case !state:
			symbol := "."
			if d >= onThreshold {
				symbol = "-"
			}
			if len(t.symbols) == 8 { // there is no such character
				t.character()
			}
			t.symbols += symbol
		case d >= offThreshold:
			t.character()
			switch {
			case d >= 5*offLow:
				t.text += " "
				t.words++
			case d >= 4*offLow:
				optional = true
				t.unclear++
			default:
				t.noWords++
			}
		case d >= 5*offLow:
			return nil, fmt.Errorf("the threshold of a gap is %v, but a short gap takes %v", offThreshold, offLow)
		}
	}
	if t.active && float64(current) > 10*offThreshold {
		t.active = false
		t.character()
	}
	if optional {
		return []string{t.text, t.text + " "}, nil
	}
	return []string{t.text}, nil
}

func onOff(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func c40(r *vh.Run) {
	r.Rule("a case is the decoder or the audio demodulator with arbitrary or regular keying and a scope; the frames of every tick are compared with the key state, and the text with the text that follows from the key states and the thresholds that are shown; distinct: keying")
	r.Parallel(8, r.N(1200, 12000), func(i int) {
		r.Case(fmt.Sprintf("trace/%d", i), func(c *vh.C) {
			var out bytes.Buffer
			s := &traceScope{}
			rate, block := sampleRate, blockSize
			if c.Intn(3) == 0 {
				rate, block = 8000+c.Intn(90000), 60+c.Intn(900)
			}
			d := cw.NewDecoder(&out, rate, block)
			d.SetScope(s)
			t := newTiming()
			ticks := 0
			var k []bool
			for round := 0; round < 3; round++ {
				k = keying(c)
				if c.Intn(2) == 0 { // everything is decoded
					k = append(k, silence(100+c.Intn(400))...)
				}
				for j, state := range k {
					before := out.Len()
					d.Tick(state)
					frames := s.take()
					candidates, err := t.tick(state, frames)
					if err != nil {
						c.FailWith(states(k[:j+1]), "round %d, tick %d: %v", round, j, err)
						return
					}
					if got := out.String()[before:]; !slices.Contains(candidates, got) {
						c.FailWith(map[string]any{"keying": states(k[:j+1]), "frames": fmt.Sprint(valuesOf(frames))}, "round %d, tick %d: %q is decoded, but %q follows from the thresholds that are shown", round, j, got, candidates)
						return
					}
				}
				ticks += len(k)
				if c.Intn(3) == 0 {
					d.Reset()
					t = newTiming()
				}
				c.Key(states(k))
			}
			if len(k) < 300 {
				c.Sample(map[string]any{"keying": states(k), "decoded": out.String()})
			}
			c.Eval(ticks)
			c.Count("ticks", ticks)
			c.Count("word gaps", t.words)
			c.Count("character gaps", t.noWords)
			c.Count("gaps that may be word gaps", t.unclear)
			c.Count("characters", len(strings.ReplaceAll(out.String(), " ", "")))
		})
	})
	// regular keying: the thresholds approach the timing
	r.Parallel(8, r.N(600, 6000), func(i int) {
		r.Case(fmt.Sprintf("speed/%d", i), func(c *vh.C) {
			var out bytes.Buffer
			s := &traceScope{}
			d := cw.NewDecoder(&out, sampleRate, blockSize)
			d.SetScope(s)
			dit := 3 + c.Intn(7) // ticks
			if c.Intn(2) == 0 {  // another speed before
				feed(plain{d}, morse.Key(morse.Encode("paris paris"), float64(3+c.Intn(7)), 0))
			}
			text := morse.RandomText(c.Rand, []rune("acdfgjklnpqruvwxyz"), 8, 6)
			feed(plain{d}, morse.Key(morse.Encode("paris paris "+text), float64(dit), 0))
			frames := s.take()
			for _, f := range frames[len(frames)-4:] {
				for _, kind := range []string{"on", "off"} {
					low, ok := f.Values[scope.ChannelID(kind+"_threshold_low")]
					if !ok {
						continue
					}
					high := f.Values[scope.ChannelID(kind+"_threshold_high")]
					longest := map[string]float64{"on": 3.5, "off": 7.1}[kind] // gaps between words count, too
					if math.Abs(low-float64(dit)) > 0.2*float64(dit) || high < 2.6*float64(dit) || high > longest*float64(dit) {
						c.Failf("a dit takes %d ticks, the %s thresholds are %v and %v after %q", dit, kind, low, high, text)
					}
				}
			}
			c.Eval(1)
			c.Count("texts", 1)
			c.Key(fmt.Sprint("speed", dit, text))
		})
	})
	r.Parallel(4, r.N(120, 1200), func(i int) {
		r.Case(fmt.Sprintf("audio/%d", i), func(c *vh.C) { c40audio(c) })
	})
}

func valuesOf(frames []*scope.TimeFrame) (result []string) {
	for _, f := range frames {
		result = append(result, fmt.Sprint(f.Stream, f.Values))
	}
	return
}

func c40audio(c *vh.C) {
	a := genAudio(c)
	a.bufferSize = 1 + c.Intn(3000)
	out := &lockedBuffer{}
	d := cw.NewAudioDemodulator(out, a.pitch, a.rate, a.bufferSize)
	defer c.Within("Close", d.Close)
	s := &traceScope{}
	debounce := 3
	c.Within("settings", func() {
		if a.auto {
			d.SetScale(0)
		}
		if a.debounce >= 0 {
			debounce = a.debounce
			d.SetDebounceThreshold(a.debounce)
		}
		d.SetScope(s)
	})
	threshold := d.MagnitudeThreshold()
	if c.Intn(2) == 0 {
		threshold = 0.2 + c.Float64()*0.6
		c.Within("SetMagnitudeThreshold", func() { d.SetMagnitudeThreshold(threshold) })
	}
	audio := tone("paris "+morse.RandomText(c.Rand, morse.Letters, 2, 4), a.pitch, a.rate, a.wpm, a.amp, 0.05, c.Float64()*7)
	noise := c.Float64() * 0.4 * a.amp
	if c.Intn(2) == 0 {
		noise = 0
	}
	for i := range audio {
		audio[i] += float32(c.NormFloat64() * noise)
	}
	blocks := len(audio) / d.Blocksize()
	c.Within("Write", func() { d.Write(audio) })
	want := 5 * blocks
	c.Reach(func() bool { s.mu.Lock(); defer s.mu.Unlock(); return len(s.frames) >= want }, func() any { return fmt.Sprintf("%d frames", len(s.frames)) }, "%d blocks of audio do not show %d frames", blocks, want)
	frames := s.take()
	if len(frames) != want {
		c.Failf("%v: %d frames for %d blocks of audio", a, len(frames), blocks)
		return
	}
	t := newTiming()
	debounced, last, stable := false, false, 0
	changes := 0
	for b := 0; b < blocks; b++ {
		tick := frames[5*b : 5*b+5]
		var own map[scope.ChannelID]float64
		var rest []*scope.TimeFrame
		for _, f := range tick {
			if f.Stream == "audio" {
				own = f.Values
			} else {
				rest = append(rest, f)
			}
		}
		if own == nil {
			c.Failf("%v: no frame of the stream audio for block %d: %v", a, b, valuesOf(tick))
			return
		}
		if math.Abs(own["magnitude_threshold"]-50*threshold) > 1e-9 {
			c.Failf("%v: the magnitude threshold %v is shown as %v", a, threshold, own["magnitude_threshold"])
			return
		}
		state := own["magnitude"] > own["magnitude_threshold"]
		if math.Abs(own["magnitude"]-own["magnitude_threshold"]) > 1e-9 && own["state"] != 30*onOff(state) {
			c.Failf("%v: block %d: the state is shown as %v, the magnitude as %v, the threshold as %v", a, b, own["state"], own["magnitude"], own["magnitude_threshold"])
			return
		}
		state = own["state"] > 0
		if state != last {
			stable = 0
		}
		stable++
		last = state
		if stable >= debounce {
			if debounced != state {
				changes++
			}
			debounced = state
		}
		if own["debounced"] != 40*onOff(debounced) {
			c.Failf("%v: block %d: the debounced state is shown as %v, but should be %v with a threshold of %d", a, b, own["debounced"], debounced, debounce)
			return
		}
		if _, err := t.tick(debounced, rest); err != nil {
			c.Failf("%v: block %d: %v", a, b, err)
			return
		}
	}
	c.Eval(blocks)
	c.Count("audio blocks", blocks)
	c.Count("edges in audio", changes)
	c.Key(fmt.Sprint("audio", a, threshold, noise))
}
