package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/ftl/sdrainer/cw"
	"github.com/ftl/sdrainer/scope"

	"verif/morse"
	"verif/vh"
)

const unknown = rune(0xA6)

// recorder is a scope that records the values of all frames, in order.
type recorder struct {
	active bool
	keep   bool
	frames []string
	bad    string
	n      int
}

func (r *recorder) Active() bool { return r.active }
func (r *recorder) ShowTimeFrame(f *scope.TimeFrame) {
	r.n++
	if r.keep {
		r.frames = append(r.frames, fmt.Sprint(f.Stream, f.Values))
	}
	for _, prefix := range []string{"on_threshold", "off_threshold"} {
		low, ok1 := f.Values[scope.ChannelID(prefix+"_low")]
		thr, ok2 := f.Values[scope.ChannelID(prefix)]
		high, ok3 := f.Values[scope.ChannelID(prefix+"_high")]
		if ok1 && ok2 && ok3 && !(0 < low && low < thr && thr < high && high < 1e6) {
			r.bad = fmt.Sprintf("%s: low %v, threshold %v, high %v", f.Stream, low, thr, high)
		}
	}
}
func (r *recorder) ShowSpectralFrame(f *scope.SpectralFrame) {}

type failingWriter struct{ n int }

func (w *failingWriter) Write(p []byte) (int, error) { w.n++; return 0, errors.New("injected") }

func inAlphabet(r rune) bool {
	_, ok := morse.Table[r]
	return ok || r == unknown || r == ' '
}

// keyDowns returns the number of key-down periods with at least the given length, and of all.
func keyDowns(states []bool, minLen int) (long, all int) {
	run := 0
	for i, s := range states {
		if s {
			run++
		}
		if run > 0 && (!s || i == len(states)-1) {
			all++
			if run >= minLen {
				long++
			}
			run = 0
		}
	}
	return
}

func states(s []bool) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && s[j] == s[i] {
			j++
		}
		sign := "-"
		if s[i] {
			sign = "+"
		}
		fmt.Fprintf(&b, "%s%d", sign, j-i)
		i = j
	}
	return b.String()
}

// keying mixes regular texts, arbitrary keying and long periods.
func keying(c *vh.C) []bool {
	var result []bool
	for j := 0; j < 1+c.Intn(5); j++ {
		switch c.Intn(6) {
		case 0, 1:
			result = append(result, randomKeying(c.Rand, c.Intn(120))...)
		case 2:
			text := morse.RandomText(c.Rand, morse.Alphabet, 1+c.Intn(4), 6)
			result = append(result, morse.Key(morse.Jitter(morse.Encode(text), c.Float64()*0.9, c.Rand), 2+c.Float64()*12, c.Float64()*30)...)
		case 3: // overlong characters
			for k := 0; k < c.Intn(40); k++ {
				n := 3 + c.Intn(2)*9
				for l := 0; l < n; l++ {
					result = append(result, true)
				}
				result = append(result, silence(3)...)
			}
		case 4:
			result = append(result, silence(c.Intn(2000))...)
		case 5:
			for k := 0; k < c.Intn(3000); k++ {
				result = append(result, true)
			}
		}
	}
	return result
}

func c09(r *vh.Run) {
	r.Rule("random concatenations of arbitrary keying, jittered texts at 5 to 60 WPM, overlong characters, carriers and silence, with resets at random points and with or without a scope, fed to the decoder and the spectral demodulator; glitch-only keying; a carrier between a run-in and a text; distinct: keying")
	r.Parallel(8, r.N(200, 3000), func(i int) {
		r.Case(fmt.Sprintf("keying/%d", i), func(c *vh.C) {
			kind := c.Intn(3)
			var out bytes.Buffer
			rec := &recorder{active: true}
			debounce := -1
			if kind > 0 {
				debounce = c.Intn(5) - 1
			}
			t := newTicker(c, &out, sampleRate, blockSize, kind, debounce)
			setScope := func(t ticker, s scope.Scope) {
				switch d := t.(type) {
				case plain:
					d.d.SetScope(s)
				case spectral[float32]:
					d.d.SetScope(s)
				case spectral[int]:
					d.d.SetScope(s)
				}
			}
			setScope(t, rec)
			for round := 0; round < 3; round++ {
				k := keying(c)
				before := out.Len()
				feed(t, k)
				feed(t, silence(400))
				got := out.String()[before:]
				long, all := keyDowns(k, 2)
				chars, spaces := 0, 0
				for _, ch := range got {
					if !inAlphabet(ch) {
						c.FailWith(states(k), "the output %q contains %q", got, ch)
						return
					}
					if ch == ' ' {
						spaces++
					} else {
						chars++
					}
				}
				if chars > long {
					c.FailWith(states(k), "%d characters from %d key-downs of at least 2 ticks: %q", chars, long, got)
					return
				}
				if spaces > all {
					c.FailWith(states(k), "%d spaces from %d key-downs: %q", spaces, all, got)
					return
				}
				// continued silence
				before = out.Len()
				feed(t, silence(100+c.Intn(3000)))
				if out.Len() != before {
					c.FailWith(states(k), "continued silence is decoded to %q", out.String()[before:])
					return
				}
				if rec.bad != "" {
					c.FailWith(states(k), "thresholds: %s", rec.bad)
					return
				}
				c.Eval(1)
				c.Count("characters decoded", chars)
				c.Count("key-downs", all)
				c.Key(states(k))
				if round == 0 && len(k) < 300 {
					c.Sample(map[string]any{"keying": states(k), "decoded": got})
				}
				// a reset in the middle of anything makes it like new
				k = keying(c)
				feed(t, k[:c.Intn(len(k)+1)])
				if c.Intn(2) == 0 {
					feed(t, []bool{true, true, true, true, true, true}[:1+c.Intn(6)])
				}
				t.reset()
				var out2 bytes.Buffer
				rec2 := &recorder{active: true, keep: kind == 0}
				kind2 := 0
				if debounce > 1 {
					kind2 = kind
				}
				t2 := newTicker(c, &out2, sampleRate, blockSize, kind2, debounce)
				setScope(t2, rec2)
				var out3 bytes.Buffer
				t3 := newTicker(c, &out3, sampleRate, blockSize, kind, debounce) // without a scope
				if c.Intn(2) == 0 {
					setScope(t3, &recorder{active: false})
				}
				k = keying(c)
				before = out.Len()
				rec.frames, rec.keep = nil, kind == 0
				for i, s := range k {
					t.tick(s)
					t2.tick(s)
					t3.tick(s)
					if got := out.String()[before:]; got != out2.String() {
						c.FailWith(states(k[:i+1]), "after a reset %q is decoded, a new decoder decodes %q", got, out2.String())
						return
					}
					if out2.String() != out3.String() {
						c.FailWith(states(k[:i+1]), "with a scope %q is decoded, without %q", out2.String(), out3.String())
						return
					}
				}
				if kind == 0 && fmt.Sprint(rec.frames) != fmt.Sprint(rec2.frames) {
					c.FailWith(states(k), "the scope frames of a decoder after a reset differ from those of a new one")
					return
				}
				rec.keep = false
				c.Count("resets", 1)
				t.reset()
			}
			c.Count("scope frames", rec.n)
		})
	})
	r.Parallel(8, r.N(500, 5000), func(i int) {
		r.Case(fmt.Sprintf("glitches/%d", i), func(c *vh.C) {
			var out bytes.Buffer
			t := newTicker(c, &out, sampleRate, blockSize, i%3, -1)
			if c.Intn(2) == 0 {
				feed(t, morse.Key(morse.Encode("cq de"), 3.2+c.Float64()*6, 30))
				feed(t, silence(400))
			}
			before := out.Len()
			var k []bool
			for j := 0; j < 200; j++ {
				n := 1 + c.Intn(10)
				if c.Intn(6) == 0 {
					n = 1 + c.Intn(300)
				}
				k = append(append(k, true), silence(n)...)
			}
			feed(t, k)
			got := out.String()[before:]
			if strings.Trim(got, " ") != "" {
				c.FailWith(states(k), "glitches are decoded to %q", got)
			}
			c.Count("glitches", 200)
			c.Key("glitches" + states(k))
		})
	})
	r.Parallel(8, r.N(1000, 10000), func(i int) {
		r.Case(fmt.Sprintf("carrier/%d", i), func(c *vh.C) {
			wpm := 14 + c.Float64()*20
			tpd := morse.DitSeconds(wpm) / tick
			var out bytes.Buffer
			t := newTicker(c, &out, sampleRate, blockSize, i%3, -1)
			feed(t, morse.Key(morse.Encode("paris paris paris"), tpd, 30))
			carrier := 12 + c.Float64()*200
			pause := 7 + c.Float64()*30
			text := morse.RandomText(c.Rand, morse.Letters, 1+c.Intn(4), 6)
			var marks []morse.Mark
			for k := c.Intn(4); k > 0; k-- { // the carrier is part of a character
				marks = append(marks, morse.Mark{On: true, Units: float64(1 + 2*c.Intn(2))}, morse.Mark{On: false, Units: 1})
			}
			marks = append(marks, morse.Mark{On: true, Units: carrier})
			for k := c.Intn(4); k > 0; k-- {
				marks = append(marks, morse.Mark{On: false, Units: 1}, morse.Mark{On: true, Units: float64(1 + 2*c.Intn(2))})
			}
			marks = append(marks, morse.Mark{On: false, Units: pause})
			marks = append(marks, morse.Encode(text)...)
			feed(t, morse.Key(marks, tpd, 0))
			feed(t, silence(600))
			got := out.String()
			if !strings.HasSuffix(got, " "+text) {
				c.Failf("after a carrier of %.0f dits and a pause of %.1f dits %q at %.1f WPM is decoded to %q", carrier, pause, text, wpm, got)
			}
			c.Count("carriers", 1)
			c.Key(fmt.Sprint("carrier", text, wpm))
		})
	})
	r.Parallel(8, r.N(100, 1000), func(i int) {
		r.Case(fmt.Sprintf("writer/%d", i), func(c *vh.C) {
			w := &failingWriter{}
			d := cw.NewDecoder(w, sampleRate, blockSize)
			feed(plain{d}, keying(c))
			feed(plain{d}, silence(1000))
			c.Count("failed writes", w.n)
			c.Key(fmt.Sprint("writer", i, w.n))
		})
	})
}
