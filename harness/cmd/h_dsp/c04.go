package main

import (
	"fmt"
	"math"

	"github.com/ftl/sdrainer/dsp"

	"verif/vh"
)

func refWindows(psd []float64, edge int) (floor, variance float64, from, to int) {
	n := len(psd)
	size := (n - 2*edge) / 10
	floor = math.Inf(1)
	for a := edge; a+size <= n-edge; a += size {
		sum := 0.0
		for i := a; i < a+size; i++ {
			sum += psd[i]
		}
		mean := sum / float64(size)
		if mean < floor {
			floor, from, to = mean, a, a+size
		}
	}
	for i := from; i < to; i++ {
		variance += (psd[i] - floor) * (psd[i] - floor)
	}
	variance /= float64(size)
	return
}

func noiseFloor[T dsp.Number](c *vh.C, eps float64) {
	n := 20 + c.Intn(300)
	if c.Intn(3) == 0 {
		n = []int{256, 512, 1024, 2048}[c.Intn(4)]
	}
	edge := c.Intn((n-10)/2 + 1)
	switch c.Intn(5) {
	case 0:
		edge = 0
	case 1:
		edge = min(70, (n-10)/2)
	case 2: // exactly ten windows
		n -= n % 2
		edge = (n % 10) / 2
		edge += 5 * c.Intn(max(1, (n-2*edge-10)/10))
	}
	amp := math.Pow(10, c.Float64()*12-6)
	raw := make([]float64, n)
	for i := range raw {
		x, y := c.NormFloat64(), c.NormFloat64()
		raw[i] = amp * (x*x + y*y)
	}
	for j := 0; j < c.Intn(8); j++ {
		raw[c.Intn(n)] = amp * math.Pow(10, c.Float64()*6)
	}
	psdT, psd := conv[T](raw)
	floor, variance := dsp.FindNoiseFloor(dsp.Block[T](psdT), edge)
	wantFloor, wantVariance, from, to := refWindows(psd, edge)
	what := fmt.Sprintf("%T n=%d edge=%d", T(0), n, edge)
	c.Sample(map[string]any{"what": what, "floor": float64(floor), "window": []int{from, to}})
	if math.Abs(float64(floor)-wantFloor) > eps*wantFloor {
		c.FailWith(psd, "%s: noise floor %v, expected %v (bins %d-%d)", what, floor, wantFloor, from, to-1)
		return
	}
	if math.Abs(variance-wantVariance) > eps*100*(wantVariance+wantFloor*wantFloor) {
		c.FailWith(psd, "%s: variance %v, expected %v (bins %d-%d)", what, variance, wantVariance, from, to-1)
		return
	}
	c.Eval(1)
	c.Key(fmt.Sprint(what, from, raw[0]))

	// neither the edges nor signals outside of the quietest window have an influence
	mod := append([]T(nil), psdT...)
	for i := range mod {
		if i < edge || i >= n-edge {
			mod[i] = T(amp * math.Pow(10, c.Float64()*16-8))
		} else if (i < from || i >= to) && c.Intn(3) == 0 {
			mod[i] += T(amp * math.Pow(10, c.Float64()*6))
		}
	}
	floor2, variance2 := dsp.FindNoiseFloor(dsp.Block[T](mod), edge)
	if floor2 != floor || variance2 != variance {
		c.FailWith(psd, "%s: signals in the edges and outside of the bins %d-%d change the noise floor from %v (%v) to %v (%v)", what, from, to-1, floor, variance, floor2, variance2)
	}
	c.Count("disturbed spectra", 1)
}

func anyEdge[T dsp.Number](c *vh.C) {
	n := 1 + c.Intn(200)
	if c.Intn(3) == 0 {
		n = 1 + c.Intn(25)
	}
	raw := make([]float64, n)
	lo, hi := math.Inf(1), math.Inf(-1)
	offset := 0.0
	if c.Intn(3) == 0 {
		offset = -100 // dB values
	}
	for i := range raw {
		raw[i] = offset + c.Float64()*50
	}
	psdT, psd := conv[T](raw)
	for _, v := range psd {
		lo, hi = min(lo, v), max(hi, v)
	}
	edge := c.Intn(2*n+40) - 20
	switch c.Intn(8) {
	case 0:
		edge = math.MaxInt
	case 1:
		edge = math.MinInt
	case 2:
		edge = n / 2
	case 3:
		edge = (n - 10) / 2
	case 4:
		edge = -1 - c.Intn(1000000)
	}
	floor, variance := dsp.FindNoiseFloor(dsp.Block[T](psdT), edge)
	f := float64(floor)
	tol := 1e-5 * (math.Abs(lo) + math.Abs(hi))
	if math.IsNaN(f) || f < lo-tol || f > hi+tol {
		c.FailWith(psd, "%T n=%d edge=%d: noise floor %v is not within %v and %v", T(0), n, edge, f, lo, hi)
	}
	if math.IsNaN(variance) || math.IsInf(variance, 0) || variance < 0 || variance > (hi-lo)*(hi-lo)+tol {
		c.FailWith(psd, "%T n=%d edge=%d: variance %v, the values are within %v and %v", T(0), n, edge, variance, lo, hi)
	}
	c.Eval(1)
	c.Key(fmt.Sprint("edge", n, edge))
}

func c04(r *vh.Run) {
	r.Rule("random power spectra with noise and strong signals over 12 decades; the noise floor and variance are compared with reference windows, then everything but the quietest window is disturbed; spectra of 1-200 bins with arbitrary edge widths including extreme ones; distinct: (size, edge width, spectrum)")
	r.Parallel(8, r.N(4000, 60000), func(i int) {
		r.Case(fmt.Sprintf("floor/%d", i), func(c *vh.C) {
			if i%2 == 0 {
				noiseFloor[float32](c, 1e-5)
			} else {
				noiseFloor[float64](c, 1e-10)
			}
		})
	})
	r.Parallel(8, r.N(4000, 60000), func(i int) {
		r.Case(fmt.Sprintf("edge/%d", i), func(c *vh.C) {
			if i%2 == 0 {
				anyEdge[float32](c)
			} else {
				anyEdge[float64](c)
			}
		})
	})
}
