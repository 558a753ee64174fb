package main

import (
	"fmt"
	"math"
	"slices"

	"github.com/ftl/sdrainer/dsp"

	"verif/vh"
)

func isBad(v float64) bool { return math.IsNaN(v) || math.IsInf(v, 0) }

// stats of a window, computed with float64
func stats(w []float64) (mean, variance, maxAbs float64, bad bool) {
	for _, v := range w {
		if isBad(v) {
			bad = true
		}
		mean += v
		maxAbs = max(maxAbs, math.Abs(v))
	}
	mean /= float64(len(w))
	for _, v := range w {
		variance += (v - mean) * (v - mean)
	}
	variance /= float64(len(w))
	return
}

func genValue(c *vh.C, regime int, special bool) float64 {
	if special && c.Intn(12) == 0 {
		return []float64{math.Inf(1), math.Inf(-1), math.NaN()}[c.Intn(3)]
	}
	switch regime {
	case 0:
		return c.NormFloat64()
	case 1:
		return 1e-6 * c.NormFloat64()
	case 2:
		return 1e9 * c.NormFloat64()
	case 3:
		return 1000 + c.NormFloat64()
	case 4:
		return 0
	case 5:
		return float64(c.Intn(2))
	}
	return -100 + 10*c.NormFloat64()
}

func rolling[T dsp.Number](c *vh.C, eps float64, steps int) {
	n := 1 + c.Intn(40)
	if c.Intn(5) == 0 {
		n = 1 + c.Intn(3)
	}
	special := c.Intn(2) == 0
	mean := dsp.NewRollingMean[T](n)
	variance := dsp.NewRollingVariance[T](n)
	window := make([]float64, n)
	regime := c.Intn(7)
	sawSpecial := false
	name := fmt.Sprintf("%T n=%d", T(0), n)
	for i := 0; i < steps; i++ {
		if c.Intn(30) == 0 {
			regime = c.Intn(7)
		}
		if c.Intn(100) == 0 {
			mean.Reset()
			variance.Reset()
			clear(window)
			if mean.Get() != 0 || variance.Get() != 0 {
				c.Failf("%s: mean %v and variance %v after a reset", name, mean.Get(), variance.Get())
			}
			c.Count("resets", 1)
		}
		t := T(genValue(c, regime, special))
		v := float64(t)
		window = append(window[1:], v)
		gotMean, gotVariance := mean.Put(t), variance.Put(t)
		wantMean, wantVariance, maxAbs, bad := stats(window)
		if bad {
			sawSpecial = true
			continue
		}
		if sawSpecial {
			c.Count("recoveries from special values", 1)
			sawSpecial = false
		}
		if mean.Get() != gotMean || variance.Get() != gotVariance {
			c.Failf("%s step %d: Get returns %v, %v after Put returned %v, %v", name, i, mean.Get(), variance.Get(), gotMean, gotVariance)
		}
		round := float64(n) * eps * maxAbs
		if math.IsNaN(float64(gotMean)) || math.Abs(float64(gotMean)-wantMean) > 2*round {
			c.FailWith(window, "%s step %d: mean %v, expected %v", name, i, gotMean, wantMean)
		}
		if math.IsNaN(float64(gotVariance)) || math.Abs(float64(gotVariance)-wantVariance) > 1e-3*wantVariance+10*round*round {
			c.FailWith(window, "%s step %d: variance %v, expected %v", name, i, gotVariance, wantVariance)
		}
		if c.Failed() {
			return
		}
	}
	c.Eval(steps)
	c.Key(fmt.Sprint(name, special, window[0]))
	c.Sample(map[string]any{"type": name, "steps": steps, "special values": special, "last window": fmt.Sprint(window)})
}

// rollingInt uses values for which mean and variance are integral.
func rollingInt(c *vh.C, steps int) {
	n := 1 << c.Intn(5)
	mean := dsp.NewRollingMean[int](n)
	variance := dsp.NewRollingVariance[int](n)
	window := make([]float64, n)
	for i := 0; i < steps; i++ {
		v := n * n * (c.Intn(2001) - 1000)
		window = append(window[1:], float64(v))
		wantMean, wantVariance, _, _ := stats(window)
		if got := mean.Put(v); float64(got) != wantMean {
			c.FailWith(window, "int n=%d step %d: mean %v, expected %v", n, i, got, wantMean)
		}
		if got := variance.Put(v); math.Abs(float64(got)-wantVariance) > 1e-9*wantVariance {
			c.FailWith(window, "int n=%d step %d: variance %v, expected %v", n, i, got, wantVariance)
		}
		if c.Failed() {
			return
		}
	}
	c.Eval(steps)
	c.Key(fmt.Sprint("int", n, window[0]))
}

func history[T dsp.Number](c *vh.C, eps float64, integral bool) {
	length := 1 + c.Intn(60)
	h := dsp.NewRollingHistory[T](length)
	window := make([]float64, length) // oldest first
	regime := c.Intn(7)
	name := fmt.Sprintf("history %T length=%d", T(0), length)
	get := func(i int) float64 { return window[length-i] }
	for step := 0; step < 150; step++ {
		if c.Intn(60) == 0 {
			h.Reset()
			clear(window)
		}
		if step > 0 || c.Intn(2) == 0 {
			v := genValue(c, regime, false)
			if integral {
				v = float64(c.Intn(2001) - 1000)
			}
			t := T(v)
			h.Put(t)
			window = append(window[1:], float64(t))
		}
		n := 1 + c.Intn(length)
		last := slices.Clone(window[length-n:])
		mean, variance, maxAbs, _ := stats(last)
		round := 4 * float64(length) * eps * maxAbs
		check := func(what string, got, want, tol float64) {
			if math.IsNaN(got) || math.Abs(got-want) > tol {
				c.FailWith(window, "%s step %d: %s = %v, expected %v", name, step, what, got, want)
			}
		}
		i := 1 + c.Intn(length)
		check(fmt.Sprintf("Get(%d)", i), float64(h.Get(i)), get(i), 0)
		check(fmt.Sprintf("Sum(%d)", n), float64(h.Sum(n)), mean*float64(n), float64(n)*round)
		check(fmt.Sprintf("Min(%d)", n), float64(h.Min(n)), slices.Min(last), 0)
		check(fmt.Sprintf("Max(%d)", n), float64(h.Max(n)), slices.Max(last), 0)
		if integral {
			check(fmt.Sprintf("Mean(%d)", n), float64(h.Mean(n)), math.Trunc(mean), 1e-9)
		} else {
			check(fmt.Sprintf("Mean(%d)", n), float64(h.Mean(n)), mean, round)
		}
		check(fmt.Sprintf("Variance(%d)", n), h.Variance(n), variance, 1e-6*variance+10*round*round)
		check(fmt.Sprintf("SDev(%d)", n), h.SDev(n)*h.SDev(n), variance, 1e-5*variance+20*round*round)
		indexes := make([]int, 1+c.Intn(6))
		sum, lo, hi := 0.0, math.Inf(1), math.Inf(-1)
		for j := range indexes {
			indexes[j] = 1 + c.Intn(length)
			v := get(indexes[j])
			sum += v
			lo, hi = min(lo, v), max(hi, v)
		}
		_, _, maxAll, _ := stats(window)
		check(fmt.Sprintf("SumAt(%v)", indexes), float64(h.SumAt(indexes...)), sum, 30*eps*maxAll)
		check(fmt.Sprintf("MinAt(%v)", indexes), float64(h.MinAt(indexes...)), lo, 0)
		check(fmt.Sprintf("MaxAt(%v)", indexes), float64(h.MaxAt(indexes...)), hi, 0)
		if c.Failed() {
			return
		}
	}
	c.Eval(150)
	c.Key(fmt.Sprint(name, window[0]))
}

func c05(r *vh.Run) {
	r.Rule("random insertion sequences with changing magnitude (1e-6 to 1e9), infinite and NaN values and resets through windows of 1-60 values as float32, float64 and int; after each step all functions are compared with the same functions over the last values; distinct: (type, window length, final values)")
	r.Parallel(8, r.N(600, 6000), func(i int) {
		r.Case(fmt.Sprintf("rolling/%d", i), func(c *vh.C) {
			steps := 1000
			if i < 8 {
				steps = r.N(200000, 1000000)
			}
			switch i % 4 {
			case 0, 1:
				rolling[float64](c, 1e-15, steps)
			case 2:
				rolling[float32](c, 2e-7, steps)
			case 3:
				rollingInt(c, steps)
			}
		})
	})
	r.Parallel(8, r.N(900, 9000), func(i int) {
		r.Case(fmt.Sprintf("history/%d", i), func(c *vh.C) {
			switch i % 3 {
			case 0:
				history[float64](c, 1e-15, false)
			case 1:
				history[float32](c, 2e-7, false)
			case 2:
				history[int](c, 1e-15, true)
			}
		})
	})
}
