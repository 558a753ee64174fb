package main

import (
	"fmt"
	"math"

	"github.com/ftl/sdrainer/dsp"

	"verif/vh"
)

var usualRates = []int{8000, 12000, 20250, 24000, 44100, 48000, 96000, 192000, 384000}

func genMapping(c *vh.C) (rate, size, center int) {
	for {
		rate = usualRates[c.Intn(len(usualRates))]
		if c.Intn(3) == 0 {
			rate = 2 * (100 + c.Intn(500000))
		}
		size = 2 << c.Intn(12)
		if c.Intn(2) == 0 {
			size = 2 * (1 + c.Intn(3000))
		}
		if float64(rate)/float64(size) >= 2 {
			break
		}
	}
	switch c.Intn(5) {
	case 0:
		center = 0
	case 1:
		center = rate/2 - c.Intn(rate)
	default:
		center = 100000 + c.Intn(150000000)
	}
	return
}

func mapping[F dsp.Number](c *vh.C) {
	rate, size, center := genMapping(c)
	m := dsp.NewFrequencyMapping(rate, size, F(center))
	bin := float64(rate) / float64(size)
	for step := 0; step < 3; step++ {
		what := fmt.Sprintf("%T rate %d size %d center %d step %d", F(0), rate, size, center, step)
		c.Key(fmt.Sprint(rate, size, center))
		c.Sample(what)
		ideal := func(k float64) float64 { return float64(center) - float64(rate)/2 + k*bin }
		for j := 0; j < 60; j++ {
			k := c.Intn(size)
			switch j {
			case 0:
				k = 0
			case 1:
				k = size - 1
			case 2:
				k = size / 2
			}
			for _, loc := range []dsp.BinLocation{dsp.BinFrom, dsp.BinCenter, dsp.BinTo} {
				got := float64(m.BinToFrequency(k, loc))
				if want := ideal(float64(k) + float64(loc)); math.Abs(got-want) > 1.0001 {
					c.Failf("%s: bin %d%+.1f is at %.3f, expected %.3f", what, k, float64(loc), got, want)
				}
			}
			if back := m.FrequencyToBin(m.BinToFrequency(k, dsp.BinCenter)); back != k {
				c.Failf("%s: the center frequency of bin %d is mapped to bin %d", what, k, back)
			}
			// an arbitrary frequency, also outside of the spectrum
			f := ideal(-0.2*float64(size) + 1.4*c.Float64()*float64(size))
			if c.Intn(4) == 0 { // close to the border of two bins
				f = ideal(float64(k)+0.5) + c.Float64()*4 - 2
			}
			ff := F(f)
			f = float64(ff)
			got := m.FrequencyToBin(ff)
			if got < 0 || got >= size {
				c.Failf("%s: frequency %f is mapped to the bin %d", what, f, got)
			}
			exact := (f - ideal(0)) / bin
			best := math.Max(0, math.Min(math.Round(exact), float64(size-1)))
			if math.Abs(float64(got)-exact) > math.Abs(best-exact)+1e-6 {
				c.Failf("%s: frequency %f is mapped to bin %d, but bin %v is closer (%.4f)", what, f, got, best, exact)
			}
			c.Eval(1)
		}
		center += c.Intn(2*rate) - rate
		if c.Intn(3) == 0 {
			center = c.Intn(50000000)
		}
		m.SetCenterFrequency(F(center))
	}
}

func c02(r *vh.Run) {
	r.Rule("random mappings (usual and arbitrary even sample rates, even sizes, centers 0, within and far outside of the sample rate, as int, float64 and float32 below 2^24) with random bins and frequencies before and after center changes, compared with the exact formula; distinct: (rate, size, center)")
	r.Parallel(8, r.N(3000, 60000), func(i int) {
		r.Case(fmt.Sprintf("mapping/%d", i), func(c *vh.C) {
			if i%3 == 0 {
				mapping[float64](c)
			} else {
				mapping[int](c)
			}
		})
	})
	r.Parallel(8, r.N(500, 5000), func(i int) {
		r.Case(fmt.Sprintf("peak/%d", i), func(c *vh.C) {
			rate, size, center := genMapping(c)
			m := dsp.NewFrequencyMapping(rate, size, center)
			from := c.Intn(size)
			to := from + c.Intn(min(size-from, 12))
			p := dsp.Peak[float32, int]{From: from, To: to, FromFrequency: m.BinToFrequency(from, dsp.BinFrom), ToFrequency: m.BinToFrequency(to, dsp.BinTo)}
			bin := float64(rate) / float64(size)
			for b := from - 3; b <= to+3; b++ {
				if got, want := p.ContainsBin(b), from <= b && b <= to; got != want {
					c.Failf("peak %d-%d contains bin %d: %v", from, to, b, got)
				}
			}
			if p.Width() != to-from+1 {
				c.Failf("peak %d-%d has width %d", from, to, p.Width())
			}
			if math.Abs(float64(p.Center())-float64(from+to)/2) > 0.5 {
				c.Failf("peak %d-%d has its center at %d", from, to, p.Center())
			}
			if math.Abs(float64(p.WidthHz())-float64(p.Width())*bin) > 2.001 {
				c.Failf("peak %d-%d with %f Hz/bin has a width of %d Hz", from, to, bin, p.WidthHz())
			}
			wantCenter := float64(center) - float64(rate)/2 + float64(from+to)/2*bin
			if math.Abs(float64(p.CenterFrequency())-wantCenter) > 2.001 {
				c.Failf("peak %d-%d has the center frequency %d, expected %f", from, to, p.CenterFrequency(), wantCenter)
			}
			c.Key(fmt.Sprint("peak", rate, size, from, to))
		})
	})
}
