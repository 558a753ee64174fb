package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ftl/sdrainer/cw"
	"github.com/ftl/sdrainer/scope"

	"verif/morse"
	"verif/vh"
)

// lockedBuffer is written by the demodulator's goroutine.
type lockedBuffer struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (b *lockedBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.buf.Write(p)
}

func (b *lockedBuffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.buf.String()
}

type countingScope struct{ n atomic.Int64 }

func (s *countingScope) Active() bool                             { return true }
func (s *countingScope) ShowTimeFrame(f *scope.TimeFrame)         { s.n.Add(1) }
func (s *countingScope) ShowSpectralFrame(f *scope.SpectralFrame) { s.n.Add(1) }

// tone keys the text with a tone of the given pitch.
func tone(text string, pitch float64, rate int, wpm float64, amp float64, lead float64, phase float64) []float32 {
	unit := morse.DitSeconds(wpm) * float64(rate)
	keyed := morse.Key(morse.Encode(text), unit, lead*float64(rate))
	result := make([]float32, len(keyed))
	for i, on := range keyed {
		if on {
			result[i] = float32(amp * math.Sin(2*math.Pi*pitch*float64(i)/float64(rate)+phase))
		}
	}
	return result
}

type audioCase struct {
	rate       int
	pitch      float64
	wpm        float64
	bufferSize int
	channels   int
	amp        float64
	auto       bool
	debounce   int
	speed      func(wpm int)
}

func (a audioCase) String() string {
	type plain audioCase
	a.speed = nil
	return fmt.Sprintf("%+v", plain(a))
}

// settings for which the tone is centred in a filter bin
func genAudio(c *vh.C) audioCase {
	a := audioCase{
		speed: func(int) {}, rate: []int{8000, 12000, 16000, 44100, 48000}[c.Intn(5)],
		wpm: 14 + c.Float64()*16, bufferSize: 1 + c.Intn(3000), channels: 1 + c.Intn(3), amp: 1, debounce: -1,
	}
	period := 10 + c.Intn(8)
	if a.rate > 20000 {
		period = 55 + c.Intn(40)
	}
	a.pitch = float64(a.rate) / float64(period)
	if c.Intn(2) == 0 {
		a.auto = true
		a.amp = 0.12 + c.Float64()*3
	}
	if c.Intn(3) == 0 {
		a.debounce = 1 + c.Intn(3)
	}
	if c.Intn(10) == 0 {
		a.bufferSize = 0
	}
	return a
}

// fade changes the amplitude after every pause of at least n samples, by up to 6 dB, or within the range of the automatic
// scale if the amplitude is high enough.
func fade(c *vh.C, amp float64, mono []float32, n int) {
	low, high := 0.5, 2.0
	if amp >= 0.12 {
		low, high = 0.12/amp, 3/amp
	}
	factor, zeros := float32(1), 0
	for i, s := range mono {
		if s == 0 {
			zeros++
			continue
		}
		if zeros >= n {
			factor = float32(low + c.Float64()*(high-low))
			if c.Intn(2) == 0 {
				factor = float32([]float64{low, high}[c.Intn(2)])
			}
			c.Count("amplitude changes", 1)
		}
		zeros = 0
		mono[i] = s * factor
	}
}

func runAudio(c *vh.C, a audioCase, text, runIn string, configure func(d *cw.AudioDemodulator)) string {
	out := &lockedBuffer{}
	d := cw.NewAudioDemodulator(out, a.pitch, a.rate, a.bufferSize)
	defer c.Within("Close", d.Close)
	if a.auto {
		d.SetScale(0)
	}
	if a.debounce >= 0 {
		d.SetDebounceThreshold(a.debounce)
	}
	d.SetChannelCount(a.channels)
	if configure != nil {
		configure(d)
	}
	mono := tone(runIn+" "+text, a.pitch, a.rate, a.wpm, a.amp, float64(c.Intn(2))*(0.1+c.Float64()*0.3), c.Float64()*7)
	if a.auto { // the amplitude may change between the words
		fade(c, a.amp, mono, int(4*morse.DitSeconds(a.wpm)*float64(a.rate)))
	}
	trailing := a.bufferSize
	if trailing == 0 {
		trailing = 1024 * 1024
	}
	trailing += 40*d.Blocksize() + int(25*morse.DitSeconds(a.wpm)*float64(a.rate))
	mono = append(mono, make([]float32, trailing)...)
	frames := make([]float32, len(mono)*a.channels)
	for i, s := range mono {
		frames[i*a.channels] = s
		for ch := 1; ch < a.channels; ch++ {
			frames[i*a.channels+ch] = float32(c.NormFloat64()) // the other channels contain something else
		}
	}
	c.Within("Write", func() {
		maxChunk := []int{1, 7, 64, 500, 5000, 100000}[c.Intn(6)]
		for len(frames) > 0 {
			n := min(len(frames), a.channels*(1+c.Intn(maxChunk)))
			if c.Intn(50) == 0 {
				n = 0
			}
			written, err := d.Write(frames[:n])
			if written != n || err != nil {
				c.Failf("%v: Write of %d samples returns %d, %v", a, n, written, err)
				return
			}
			c.Count("writes", 1)
			frames = frames[n:]
		}
	})
	c.Within("WPM", func() { a.speed(d.WPM()) })
	return out.String()
}

func c10(r *vh.Run) {
	r.Rule("texts keyed as tones at 14-30 WPM with several pitches, sample rates, phases, channel counts, amplitudes, debounce thresholds, buffer sizes and random chunk sizes must be decoded exactly after a run-in; settings are read back from several goroutines and their effect is observed; concurrent Write, settings and Close under the race detector; distinct: (text, configuration)")
	r.Parallel(6, r.N(60, 800), func(i int) {
		r.Case(fmt.Sprintf("audio/%d", i), func(c *vh.C) {
			a := genAudio(c)
			text := morse.RandomText(c.Rand, morse.Alphabet, 1+c.Intn(3), 5)
			runIn := runIns[c.Intn(2)]
			speed := 0
			a.speed = func(wpm int) { speed = wpm }
			got := runAudio(c, a, text, runIn, nil)
			c.Key(fmt.Sprint(a, text))
			c.Sample(map[string]any{"configuration": a.String(), "text": text, "decoded": got})
			if !strings.HasSuffix(got, " "+text) {
				c.Failf("%v: %q was decoded to %q", a, text, got)
			} else if f := float64(speed); f < 0.9*a.wpm-0.5 || f > 1.2*a.wpm+0.5 { // a mark may take one block less
				c.Failf("%v: after the text was decoded, the speed is reported as %d WPM", a, speed)
			} else {
				c.Count("speed reports", 1)
			}
		})
	})
	// each setting has its effect
	r.Parallel(6, r.N(30, 300), func(i int) {
		r.Case(fmt.Sprintf("effect/%d", i), func(c *vh.C) {
			a := genAudio(c)
			a.bufferSize, a.debounce, a.auto, a.amp = 500, -1, false, 1
			var configure func(d *cw.AudioDemodulator)
			want := false
			what := ""
			switch i % 7 {
			case 0:
				what, a.amp = "a low amplitude without scaling", 0.3
			case 1:
				what, a.amp, want = "a low amplitude with a fixed scale", 0.3, true
				configure = func(d *cw.AudioDemodulator) { d.SetScale(3) }
			case 2:
				what = "a magnitude threshold that is never exceeded"
				configure = func(d *cw.AudioDemodulator) { d.SetMagnitudeThreshold(1.5) }
			case 3:
				what, a.amp, want = "a low amplitude with a low magnitude threshold", 0.3, true
				configure = func(d *cw.AudioDemodulator) { d.SetMagnitudeThreshold(0.2) }
			case 4:
				what = "a debounce threshold longer than the longest mark"
				configure = func(d *cw.AudioDemodulator) { d.SetDebounceThreshold(100) }
			case 5:
				what, a.amp, a.auto = "a low amplitude with the automatic scale limited", 0.1, true
				configure = func(d *cw.AudioDemodulator) { d.SetMaxScale(2) }
			case 6:
				what, a.amp, a.auto, want = "a very low amplitude with a high limit of the automatic scale", 0.02, true, true
				configure = func(d *cw.AudioDemodulator) { d.SetMaxScale(100) }
			}
			got := runAudio(c, a, "dl1abc", "vvv vvv", configure)
			decoded := strings.HasSuffix(got, " dl1abc")
			if want && !decoded || !want && strings.Trim(got, " ") != "" {
				c.Failf("%v: %s: decoded %q", a, what, got)
			}
			c.Count("effects observed", 1)
			c.Key(what + a.String())
		})
	})
	// read back from any goroutine while audio is processed
	r.Parallel(4, r.N(24, 200), func(i int) {
		r.Case(fmt.Sprintf("controls/%d", i), func(c *vh.C) {
			d := cw.NewAudioDemodulator(&lockedBuffer{}, 600, 8000, 1+c.Intn(100))
			var running atomic.Bool
			running.Store(true)
			writerDone := make(chan any, 1)
			go func() {
				buf := tone("paris", 600, 8000, 20, 1, 0, 0)
				for running.Load() {
					d.Write(buf)
				}
				writerDone <- nil
			}()
			c.Within("the settings", func() {
				var wg sync.WaitGroup
				check := func(what string, got, want any) {
					if fmt.Sprint(got) != fmt.Sprint(want) {
						c.Failf("%s = %v right after it was set to %v", what, got, want)
					}
				}
				seeds := []int64{c.Int63(), c.Int63(), c.Int63(), c.Int63(), c.Int63()}
				for g := 0; g < 5; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						rnd := newRand(seeds[g])
						for j := 0; j < 40; j++ {
							switch g {
							case 0:
								v := float64(rnd.Intn(100))
								d.SetMaxScale(v)
								check("MaxScale", d.MaxScale(), v)
							case 1:
								v := rnd.Intn(10)
								d.SetDebounceThreshold(v)
								check("DebounceThreshold", d.DebounceThreshold(), v)
							case 2:
								v := rnd.Float64()
								d.SetMagnitudeThreshold(v)
								check("MagnitudeThreshold", d.MagnitudeThreshold(), v)
							case 3:
								d.SetScope(&countingScope{})
								d.SetScale(rnd.Float64())
								d.SetChannelCount(1 + rnd.Intn(2))
							case 4:
								d.PresetWPM(10 + rnd.Intn(20))
								d.WPM()
								d.Blocksize()
							}
							c.Count("settings", 1)
						}
					}()
				}
				wg.Wait()
			})
			running.Store(false)
			c.Await("Write", writerDone)
			c.Within("WPM", func() {
				// nothing is keyed, so the preset speed stays
				d2 := cw.NewAudioDemodulator(&lockedBuffer{}, 600, 8000, 10)
				for _, v := range []int{12, 25, 36} {
					d2.PresetWPM(v)
					if d2.WPM() != v {
						c.Failf("WPM = %d after presetting %d", d2.WPM(), v)
					}
				}
				d2.Close()
			})
			c.Within("Close", d.Close)
			c.Key(fmt.Sprint("controls", i))
		})
	})
	// close at any moment
	r.Parallel(4, r.N(150, 2000), func(i int) {
		r.Case(fmt.Sprintf("close/%d", i), func(c *vh.C) {
			d := cw.NewAudioDemodulator(&lockedBuffer{}, 600, 8000, 1+c.Intn(50))
			if c.Intn(2) == 0 {
				d.SetScope(&countingScope{})
			}
			buf := make([]float32, 1+c.Intn(20000))
			var wg sync.WaitGroup
			start := make(chan struct{})
			closers, writers, setters := 1+c.Intn(3), c.Intn(3), c.Intn(3)
			delays := make([]time.Duration, closers)
			for j := range delays {
				delays[j] = time.Duration(c.Intn(1500)) * time.Microsecond
			}
			for j := 0; j < closers; j++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					time.Sleep(delays[j])
					d.Close()
				}()
			}
			var late atomic.Int64
			for j := 0; j < writers; j++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for k := 0; k < 3; k++ {
						if _, err := d.Write(buf); err != nil {
							late.Add(1)
						}
					}
				}()
			}
			for j := 0; j < setters; j++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for k := 0; k < 20; k++ {
						d.SetMaxScale(float64(k))
						d.MaxScale()
						d.WPM()
						d.SetScope(&countingScope{})
						d.DebounceThreshold()
					}
				}()
			}
			c.Within("concurrent Write, settings and Close", func() {
				close(start)
				wg.Wait()
			})
			c.Within("using a closed demodulator", func() {
				d.Close()
				d.Write(make([]float32, 50000))
				d.SetMaxScale(1)
				d.SetScale(1)
				d.SetScope(&countingScope{})
				d.SetDebounceThreshold(1)
				d.SetMagnitudeThreshold(1)
				d.PresetWPM(20)
				d.MaxScale()
				d.WPM()
				d.Close()
			})
			c.Count("writes ended by Close", int(late.Load()))
			c.Key(fmt.Sprint("close", i, closers, writers, setters))
		})
	})
}
