package main

import (
	"fmt"
	"math"

	"github.com/ftl/sdrainer/dsp"

	"verif/vh"
)

func genSpectrum(c *vh.C, n int, integral bool) ([]float64, float64, string) {
	s := make([]float64, n)
	var threshold float64
	kind := c.Intn(8)
	switch kind {
	case 0: // noise around the threshold
		for i := range s {
			s[i] = c.NormFloat64() * 10
		}
		threshold = c.NormFloat64() * 8
	case 1: // dB values with lobes
		base := -100.0 + c.Float64()*50
		for i := range s {
			s[i] = base + c.NormFloat64()
		}
		for j := 0; j < 1+c.Intn(6); j++ {
			center, width, height := c.Float64()*float64(n), 0.5+c.Float64()*4, 10+c.Float64()*60
			for i := range s {
				d := (float64(i) - center) / width
				s[i] += height * math.Exp(-d*d)
			}
		}
		threshold = base + 3 + c.Float64()*20
	case 2: // plateaus
		level := 0.0
		for i := range s {
			if c.Intn(4) == 0 {
				level = float64(c.Intn(5))
			}
			s[i] = level
		}
		threshold = float64(c.Intn(5)) - 0.5*float64(c.Intn(2))
	case 3: // all above
		for i := range s {
			s[i] = 1 + c.Float64()
		}
		threshold = 0.5
	case 4: // all below or equal
		for i := range s {
			s[i] = float64(c.Intn(2))
		}
		threshold = 1
	case 5: // edges
		s[0], s[n-1] = 10, 12
		if n > 3 {
			s[1], s[n-2] = float64(c.Intn(20)), float64(c.Intn(20))
		}
		threshold = 5
	case 6: // silence in dB with some signals
		for i := range s {
			s[i] = math.Inf(-1)
			if c.Intn(5) == 0 {
				s[i] = c.NormFloat64() * 20
			}
		}
		threshold = -10
	case 7: // alternating
		for i := range s {
			s[i] = float64(i % 2 * (1 + c.Intn(3)))
		}
		threshold = float64(c.Intn(3)) + 0.5*float64(c.Intn(2))
	}
	if integral {
		for i := range s {
			if math.IsInf(s[i], 0) {
				s[i] = -1000
			}
			s[i] = math.Round(s[i] * 3)
		}
		threshold = math.Round(threshold * 3)
	}
	return s, threshold, fmt.Sprintf("kind%d", kind)
}

func findPeaks[T, F dsp.Number](c *vh.C, reuse []dsp.Peak[T, F], integral bool) []dsp.Peak[T, F] {
	n := 1 + c.Intn(120)
	if c.Intn(4) == 0 {
		n = 2 * (1 + c.Intn(600))
	}
	s, thr, kind := genSpectrum(c, n, integral)
	cum := []int{1, 2, 4, 8, 10, 100, 3}[c.Intn(7)]
	spectrum := make(dsp.Block[T], n)
	for i := range s {
		spectrum[i] = T(s[i] * float64(cum))
		if integral && c.Intn(3) == 0 {
			spectrum[i] += T(c.Intn(cum))
		}
	}
	threshold := T(thr)
	rate := 2 * (n*2 + c.Intn(200000))
	center := c.Intn(30000000)
	m := dsp.NewFrequencyMapping(rate, n, F(center))
	bin := float64(rate) / float64(n)
	from0 := float64(center) - float64(rate)/2
	what := fmt.Sprintf("%s %T n=%d cum=%d threshold=%v", kind, T(0), n, cum, threshold)

	got := dsp.FindPeaks(reuse, spectrum, cum, threshold, m)
	c.Count("peaks found", len(got))
	if len(got) > 0 {
		c.Key(fmt.Sprint(what, len(got), spectrum[:min(4, n)]))
	}
	c.Eval(1)

	value := func(i int) T { return spectrum[i] / T(cum) }
	above := func(i int) bool { return value(i) > threshold }
	j := 0
	for i := 0; i < n; i++ {
		if !above(i) {
			continue
		}
		from := i
		for i+1 < n && above(i+1) {
			i++
		}
		to := i
		if j >= len(got) {
			c.FailWith(s, "%s: the run %d-%d is not reported", what, from, to)
			return got
		}
		p := got[j]
		j++
		if p.From != from || p.To != to {
			c.FailWith(s, "%s: peak %d-%d reported, expected %d-%d", what, p.From, p.To, from, to)
			return got
		}
		if d := float64(p.FromFrequency) - (from0 + (float64(from)-0.5)*bin); math.Abs(d) > 1.001 {
			c.Failf("%s: peak %d-%d starts at %v, off by %f Hz", what, from, to, p.FromFrequency, d)
		}
		if d := float64(p.ToFrequency) - (from0 + (float64(to)+0.5)*bin); math.Abs(d) > 1.001 {
			c.Failf("%s: peak %d-%d ends at %v, off by %f Hz", what, from, to, p.ToFrequency, d)
		}
		if p.SignalBin < from || p.SignalBin > to {
			c.FailWith(s, "%s: peak %d-%d has the signal bin %d", what, from, to, p.SignalBin)
			return got
		}
		for k := from; k <= to; k++ {
			if value(k) > value(p.SignalBin) {
				c.FailWith(s, "%s: peak %d-%d has the signal bin %d with %v, but bin %d has %v", what, from, to, p.SignalBin, value(p.SignalBin), k, value(k))
				break
			}
		}
		if p.SignalValue != value(p.SignalBin) {
			c.Failf("%s: peak %d-%d has the signal value %v, expected %v", what, from, to, p.SignalValue, value(p.SignalBin))
		}
		f := float64(p.SignalFrequency)
		if ideal := from0 + float64(p.SignalBin)*bin; math.IsNaN(f) || math.Abs(f-ideal) > bin/2+1.001 {
			c.FailWith(s, "%s: peak %d-%d with the signal bin %d at %f has the signal frequency %f, bin size %f", what, from, to, p.SignalBin, ideal, f, bin)
		}
		if sf := float64(dsp.SignalFrequency(p.SignalBin, spectrum, m)); math.Abs(sf-f) > 1.001 {
			c.Failf("%s: SignalFrequency(%d) = %f, but the peak has %f", what, p.SignalBin, sf, f)
		}
	}
	if j != len(got) {
		c.FailWith(s, "%s: %d peaks reported, expected %d", what, len(got), j)
	}
	c.Sample(map[string]any{"what": what, "peaks": j})
	return got
}

// parabola checks the interpolation on peaks whose true position is known.
func parabola[T, F dsp.Number](c *vh.C, scale float64) {
	n := 8 + c.Intn(200)
	rate := 2 * n * (5 + c.Intn(200))
	center := c.Intn(20000000)
	m := dsp.NewFrequencyMapping(rate, n, F(center))
	bin := float64(rate) / float64(n)
	k := 1 + c.Intn(n-2)
	delta := c.Float64() - 0.5
	if c.Intn(10) == 0 {
		delta = 0
	}
	peak, curve := -50+100*c.Float64(), 0.2+c.Float64()*20
	cum := []int{1, 10, 100}[c.Intn(3)]
	spectrum := make(dsp.Block[T], n)
	for i := range spectrum {
		d := float64(i) - float64(k) - delta
		spectrum[i] = T((peak - curve*d*d) * float64(cum) * scale)
	}
	threshold := T((peak - curve*3) * scale)
	peaks := dsp.FindPeaks(nil, spectrum, cum, threshold, m)
	if len(peaks) != 1 {
		c.Failf("parabola at %d%+.3f: %d peaks", k, delta, len(peaks))
		return
	}
	want := float64(center) - float64(rate)/2 + (float64(k)+delta)*bin
	got := float64(peaks[0].SignalFrequency)
	if math.Abs(got-want) > 1.1+0.01*bin {
		c.Failf("parabola at bin %d%+.4f of %d, curvature %f, bin size %f: frequency %f, expected %f", k, delta, n, curve, bin, got, want)
	}
	c.Eval(1)
	c.Key(fmt.Sprint("parabola", k, n, delta))
}

func c03(r *vh.Run) {
	r.Rule("random spectra (noise, dB lobes, plateaus, all above, all below, edges, digital silence, alternating) of 1 to 1200 bins as float32, float64 and int with several cumulation sizes and reused result slices, compared with a reference segmentation; parabolas with known position; distinct: cases with at least one peak")
	r.Parallel(8, r.N(3000, 40000), func(i int) {
		r.Case(fmt.Sprintf("peaks/%d", i), func(c *vh.C) {
			switch i % 4 {
			case 0, 1:
				var reuse []dsp.Peak[float32, int]
				for j := 0; j < 4; j++ {
					reuse = findPeaks(c, reuse, false)
				}
			case 2:
				var reuse []dsp.Peak[float64, float64]
				for j := 0; j < 4; j++ {
					reuse = findPeaks(c, reuse, false)
				}
			case 3:
				var reuse []dsp.Peak[int, int]
				for j := 0; j < 4; j++ {
					reuse = findPeaks(c, reuse, true)
				}
			}
		})
	})
	r.Parallel(8, r.N(2000, 20000), func(i int) {
		r.Case(fmt.Sprintf("parabola/%d", i), func(c *vh.C) {
			switch i % 3 {
			case 0:
				parabola[float32, int](c, 1)
			case 1:
				parabola[float64, float64](c, 1)
			case 2:
				parabola[int, int](c, 10000)
			}
		})
	})
}
