package main

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/ftl/sdrainer/dsp"

	"verif/vh"
)

var audioRates = []int{8000, 11025, 12000, 16000, 22050, 24000, 44100, 48000, 96000, 192000}

func c07(r *vh.Run) {
	r.Rule("random pitches (300-3000 Hz), sample rates (8-192 kHz), phases, amplitudes and buffer contents; magnitude compared with the naive DFT at the nearest bin, detection of tones at the pitch and on other bins, silence, long and short buffers; distinct: (pitch, rate, content)")
	r.Parallel(8, r.N(1500, 15000), func(i int) {
		r.Case(fmt.Sprintf("goertzel/%d", i), func(c *vh.C) {
			rate := audioRates[c.Intn(len(audioRates))]
			pitch := 300 + c.Float64()*2700
			if c.Intn(3) == 0 {
				pitch = float64(50 * (6 + c.Intn(40)))
			}
			g := dsp.NewDefaultGoertzel(pitch, rate)
			n := g.Blocksize()
			period := math.Round(float64(rate) / pitch)
			what := fmt.Sprintf("pitch %.2f rate %d blocksize %d", pitch, rate, n)
			c.Key(fmt.Sprint(pitch, rate))
			c.Sample(what)
			if n <= 0 || math.Mod(float64(n), period) != 0 {
				c.Failf("%s: not a multiple of the period %v", what, period)
				return
			}
			if math.Abs(float64(n)-0.005*float64(rate)) > period/2+1e-6 {
				c.Failf("%s: not the multiple of the period %v that is closest to 5 ms", what, period)
			}
			if d := g.Tick().Seconds() - float64(n)/float64(rate); math.Abs(d) > 1e-8 {
				c.Failf("%s: tick %v", what, g.Tick())
			}
			k := int(math.Floor(0.5 + float64(n)*pitch/float64(rate)))
			dft := func(block []float32) float64 {
				var sum complex128
				for i, s := range block {
					sum += complex(float64(s), 0) * cmplx.Exp(complex(0, -2*math.Pi*float64(k*i%n)/float64(n)))
				}
				return cmplx.Abs(sum)
			}
			for j := 0; j < 12; j++ {
				block := make([]float32, n)
				amp := math.Pow(10, c.Float64()*4-3)
				kind := j % 4
				ph := c.Float64() * 2 * math.Pi
				f := float64(c.Intn(n / 2))
				off := c.NormFloat64()
				for i := range block {
					switch kind {
					case 0:
						block[i] = float32(amp * c.NormFloat64())
					case 1:
						block[i] = float32(amp * math.Cos(2*math.Pi*pitch*float64(i)/float64(rate)+ph))
					case 2:
						block[i] = float32(amp*math.Cos(2*math.Pi*f*float64(i)/float64(n)+ph) + off)
					case 3:
						if i == n/3 {
							block[i] = float32(amp)
						}
					}
				}
				scale := 0.0
				for _, s := range block {
					scale += math.Abs(float64(s))
				}
				got, want := g.Magnitude(block), dft(block)
				if math.IsNaN(got) || math.Abs(got-want) > 1e-5*scale {
					c.Failf("%s kind %d: magnitude %v, expected %v", what, kind, got, want)
				}
				c.Eval(1)
			}
			// Detect: a fresh filter has its limit at half a block
			for j := 0; j < 10; j++ {
				g := dsp.NewDefaultGoertzel(pitch, rate)
				threshold := dsp.DefaultMagnitudeThreshold
				if g.MagnitudeThreshold() != threshold {
					c.Failf("%s: default threshold %v", what, g.MagnitudeThreshold())
				}
				if c.Intn(2) == 0 {
					threshold = 0.05 + c.Float64()*0.9
					g.SetMagnitudeThreshold(threshold)
				}
				buf := make([]float32, n+c.Intn(2*n))
				amp := c.Float64()
				ph := c.Float64() * 2 * math.Pi
				for i := range buf {
					if i < n {
						buf[i] = float32(amp * math.Cos(2*math.Pi*float64(k)*float64(i)/float64(n)+ph))
					} else {
						buf[i] = float32(c.NormFloat64())
					}
				}
				mag, state, used, err := g.Detect(buf)
				if err != nil || used != n {
					c.Failf("%s: Detect with %d samples used %d: %v", what, len(buf), used, err)
					continue
				}
				if want := dft(buf[:n]) / (float64(n) / 2); math.Abs(mag-want) > 1e-3 {
					c.Failf("%s: normalized magnitude %v, expected %v (amplitude %v)", what, mag, want, amp)
				}
				if state != (mag > threshold) {
					c.Failf("%s: state %v with magnitude %v and threshold %v", what, state, mag, threshold)
				}
				if _, _, used, err := g.Detect(buf[:c.Intn(n)]); err == nil || used != 0 {
					c.Failf("%s: a short buffer is not refused", what)
				}
				c.Eval(1)
			}
			// full scale tones and silence, in a sequence
			g = dsp.NewDefaultGoertzel(pitch, rate)
			for j := 0; j < 30; j++ {
				buf := make([]float32, n)
				ph := c.Float64() * 2 * math.Pi
				bin, amp, want := k, 1.0, true
				switch c.Intn(3) {
				case 0:
					amp, want = 0, false
				case 1:
					bin, want = c.Intn(n/2), false
					if bin == k || bin == n-k {
						continue
					}
				}
				for i := range buf {
					buf[i] = float32(amp * math.Cos(2*math.Pi*float64(bin)*float64(i)/float64(n)+ph))
				}
				if 2*k == n {
					continue
				}
				mag, state, _, err := g.Detect(buf)
				if err != nil || state != want || state != (mag > g.MagnitudeThreshold()) {
					c.Failf("%s: tone on bin %d (pitch on %d) with amplitude %v: magnitude %v, state %v, %v", what, bin, k, amp, mag, state, err)
				}
				c.Count("tones and silence detected", 1)
			}
			// a tone exactly at the pitch
			if math.Abs(float64(n)*pitch/float64(rate)-float64(k)) <= 0.2 {
				g = dsp.NewDefaultGoertzel(pitch, rate)
				for j := 0; j < 10; j++ {
					buf := make([]float32, n)
					ph := c.Float64() * 2 * math.Pi
					for i := range buf {
						buf[i] = float32(math.Cos(2*math.Pi*pitch*float64(i)/float64(rate) + ph))
					}
					if mag, state, _, _ := g.Detect(buf); !state {
						c.Failf("%s: a full-scale tone at the pitch is not detected: %v (phase %v)", what, mag, ph)
					}
					c.Count("pitch tones detected", 1)
				}
			}
			// the maximum of a block
			b := make(dsp.FilterBlock, 1+c.Intn(50))
			want := float32(0)
			for i := range b {
				b[i] = float32(c.NormFloat64())
				want = max(want, float32(math.Abs(float64(b[i]))))
			}
			if b.Max() != want {
				c.Failf("maximum of %v: %v, expected %v", b, b.Max(), want)
			}
		})
	})
}
