package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	"github.com/ftl/sdrainer/cw"

	"verif/morse"
	"verif/vh"
)

const (
	sampleRate = 48000
	blockSize  = 512
	tick       = float64(blockSize) / sampleRate
)

// ticker is one of the ways to feed key states into a decoder.
type ticker interface {
	tick(state bool)
	reset()
}

type plain struct{ d *cw.Decoder }

func (p plain) tick(s bool) { p.d.Tick(s) }
func (p plain) reset()      { p.d.Reset() }

type spectral[M float32 | float64 | int] struct {
	d   *cw.SpectralDemodulator[M, int]
	rnd *rand.Rand
	thr M
}

func (p spectral[M]) tick(s bool) {
	delta := M(p.rnd.Intn(40))
	thr := p.thr + M(p.rnd.Intn(7)) // the threshold moves, too
	if s {
		p.d.Tick(thr+delta+1, thr)
	} else {
		p.d.Tick(thr-delta, thr) // a value at the threshold is off
	}
}
func (p spectral[M]) reset() { p.d.Reset() }

func newTicker(c *vh.C, out *bytes.Buffer, rate, block, kind, debounce int) ticker {
	switch kind {
	case 0:
		return plain{cw.NewDecoder(out, rate, block)}
	case 1:
		d := cw.NewSpectralDemodulator[float32, int](out, rate, block)
		if debounce >= 0 {
			d.SetSignalDebounce(debounce)
		}
		return spectral[float32]{d, rand.New(rand.NewSource(c.Int63())), -80}
	default:
		d := cw.NewSpectralDemodulator[int, int](out, rate, block)
		if debounce >= 0 {
			d.SetSignalDebounce(debounce)
		}
		return spectral[int]{d, rand.New(rand.NewSource(c.Int63())), 15}
	}
}

var runIns = []string{"cq cq test", "vvv vvv vvv", "paris paris", "cq dx de", "the quick brown fox"}

func feed(t ticker, states []bool) {
	for _, s := range states {
		t.tick(s)
	}
}

func silence(n int) []bool { return make([]bool, n) }

// randomKeying produces arbitrary keying: glitches, carriers, pauses.
func randomKeying(rnd *rand.Rand, periods int) []bool {
	var result []bool
	state := rnd.Intn(2) == 0
	for i := 0; i < periods; i++ {
		n := 1 + rnd.Intn(12)
		switch rnd.Intn(12) {
		case 0:
			n = 1
		case 1:
			n = 20 + rnd.Intn(60)
		case 2:
			n = 100 + rnd.Intn(400)
		case 3, 4:
			n = 1 + rnd.Intn(3)
		}
		for j := 0; j < n; j++ {
			result = append(result, state)
		}
		state = !state
	}
	return result
}

func c08(r *vh.Run) {
	r.Rule("random texts of 1-8 words over the whole alphabet, keyed at 12-36 WPM with up to 10%% of a dit jitter and arbitrary sampling phase after a run-in of 2-4 words, fed to the decoder or the spectral demodulator (debounce 1 or 2), new or reset after arbitrary keying; the output must end with exactly this text; distinct: (text, speed)")
	r.Parallel(8, r.N(60000, 300000), func(i int) {
		r.Case(fmt.Sprintf("text/%d", i), func(c *vh.C) {
			wpm := 12 + c.Float64()*24
			kind := c.Intn(3)
			debounce := -1
			if c.Intn(2) == 0 && wpm < 25 {
				debounce = c.Intn(3)
			}
			rate, block := sampleRate, blockSize
			if c.Intn(3) == 0 {
				rate, block = 96000, 1024
			}
			jitter := 0.0
			if c.Intn(2) == 0 { // in dits; at high speeds a dit is only three ticks long
				jitter = 0.1
				if wpm > 28 {
					jitter = 0.03
				}
			}
			alphabet := morse.Alphabet
			switch c.Intn(4) {
			case 0:
				alphabet = morse.Letters
			case 1:
				alphabet = []rune("etianm5h0o")
			}
			text := morse.RandomText(c.Rand, alphabet, 1+c.Intn(8), 7)
			if i < len(morse.Alphabet) {
				text = "a" + string(morse.Alphabet[i]) + " " + string(morse.Alphabet[i]) + "n"
			}
			runIn := runIns[c.Intn(len(runIns))]
			if wpm > 28 { // the timing is farther away from the preset
				runIn += " vvv paris"
			}
			var out bytes.Buffer
			t := newTicker(c, &out, rate, block, kind, debounce)
			history := "new"
			if c.Intn(2) == 0 {
				history = "reset after keying"
				for j := 0; j < 1+c.Intn(2); j++ {
					feed(t, randomKeying(c.Rand, c.Intn(80)))
					t.reset()
				}
			}
			before := out.Len()
			ticksPerDit := morse.DitSeconds(wpm) / (float64(block) / float64(rate))
			marks := morse.Jitter(morse.Encode(runIn+" "+text), jitter, c.Rand)
			if c.Intn(3) == 0 { // longer pauses between the words
				for j := range marks {
					if marks[j].Units > 6 && c.Intn(2) == 0 {
						marks[j].Units = 14 + c.Float64()*25 // longer than anything that is used to adapt the timing
					}
				}
			}
			states := morse.Key(marks, ticksPerDit, c.Float64()*40)
			feed(t, states)
			feed(t, silence(int(30*ticksPerDit)))
			got := out.String()[before:]
			c.Key(fmt.Sprint(text, wpm))
			c.Count("characters keyed", len([]rune(text)))
			c.Sample(map[string]any{"text": text, "wpm": wpm, "decoded": got, "history": history})
			if !strings.HasSuffix(got, " "+text) {
				c.FailWith(map[string]any{"decoded": got, "run-in": runIn}, "%q at %.1f WPM (kind %d, debounce %d, jitter %.2f, %d/%d, %s) was decoded to %q", text, wpm, kind, debounce, jitter, rate, block, history, got)
			}
		})
	})
}
