package main

import (
	"fmt"
	"math"

	"github.com/ftl/sdrainer/dsp"

	"verif/vh"
)

// c35 observes the sections of blocks and the geometry of peaks.
func c35(r *vh.Run) {
	r.Rule("random blocks of int, float32 and float64 values with large, small, equal, infinite and negative values; every section of short blocks and random sections of long ones, compared with a direct computation; the values outside of the section are changed, too; random peaks; distinct: (type, size, section)")
	r.Parallel(6, r.N(18000, 400000), func(i int) {
		r.Case(fmt.Sprintf("section/%d", i), func(c *vh.C) {
			switch i % 3 {
			case 0:
				c35Section[int](c, "int")
			case 1:
				c35Section[float32](c, "float32")
			default:
				c35Section[float64](c, "float64")
			}
		})
	})
	r.Parallel(6, r.N(12000, 200000), func(i int) {
		r.Case(fmt.Sprintf("geometry/%d", i), func(c *vh.C) {
			for k := 0; k < 20; k++ {
				from := c.Intn(4000)
				to := from + c.Intn(1+c.Intn(100))
				low := c.Intn(60_000_000)
				width := c.Intn(100_000)
				c35Peak(c, dsp.Peak[float32, int]{From: from, To: to, FromFrequency: low, ToFrequency: low + width}, low, width, 0.5)
				c35Peak(c, dsp.Peak[int, float64]{From: from, To: to, FromFrequency: float64(low), ToFrequency: float64(low + width)}, low, width, 1e-6)
				c.Eval(2)
				c.Key(fmt.Sprint(from, to, low, width))
			}
		})
	})
}

func c35Peak[M, F dsp.Number](c *vh.C, p dsp.Peak[M, F], low, width int, tolerance float64) {
	if p.Width() != p.To-p.From+1 {
		c.Failf("a peak from bin %d to %d has the width %d", p.From, p.To, p.Width())
	}
	if n := p.Center(); 2*n < p.From+p.To-1 || 2*n > p.From+p.To+1 {
		c.Failf("a peak from bin %d to %d has the center %d", p.From, p.To, n)
	}
	if int(p.WidthHz()) != width {
		c.Failf("a peak from %v to %v is %v Hz wide", p.FromFrequency, p.ToFrequency, p.WidthHz())
	}
	if d := math.Abs(float64(p.CenterFrequency()) - float64(low) - float64(width)/2); d > tolerance {
		c.Failf("a peak from %v to %v has the center %v", p.FromFrequency, p.ToFrequency, p.CenterFrequency())
	}
}

func c35Section[T dsp.Number](c *vh.C, typ string) {
	n := 1 + c.Intn(40)
	if c.Intn(4) == 0 {
		n = 1 + c.Intn(2000)
	}
	offset, scale := 0.0, math.Pow(10, float64(c.Intn(5)))
	switch c.Intn(3) {
	case 0:
		offset = -2 * scale // only negative values
	case 1:
		offset = 3 * scale
	}
	steps := 1 + c.Intn(50) // few different values: the maximum is not unique
	value := func() T {
		return T(offset + scale*(math.Round(c.Float64()*float64(steps))/float64(steps)))
	}
	block := make(dsp.Block[T], n)
	for i := range block {
		block[i] = value()
	}
	if block.Size() != n {
		c.Failf("the size of %d values is %d", n, block.Size())
	}
	check := func(from, to int) {
		var sum float64
		best, at := block[from], from
		for i := from; i <= to; i++ {
			sum += float64(block[i])
			if block[i] > best {
				best, at = block[i], i
			}
		}
		eps := 0.0
		if typ != "int" {
			eps = 1e-4 * scale * float64(to-from+1)
			if typ == "float64" {
				eps *= 1e-8
			}
		}
		detail := func() any {
			return map[string]any{"type": typ, "block": fmt.Sprint(trimmed(block)), "from": from, "to": to}
		}
		if got := float64(block.Sum(from, to)); math.Abs(got-sum) > eps {
			c.FailWith(detail(), "%s n=%d: sum of %d-%d is %v, expected %v", typ, n, from, to, got, sum)
		}
		count := float64(to - from + 1)
		mean := float64(block.Mean(from, to))
		if typ == "int" {
			if math.Abs(mean-sum/count) >= 1 {
				c.FailWith(detail(), "%s n=%d: mean of %d-%d is %v, expected %v", typ, n, from, to, mean, sum/count)
			}
		} else if math.Abs(mean-sum/count) > eps {
			c.FailWith(detail(), "%s n=%d: mean of %d-%d is %v, expected %v", typ, n, from, to, mean, sum/count)
		}
		if got, i := block.Max(from, to); got != best || i != at {
			c.FailWith(detail(), "%s n=%d: maximum of %d-%d is %v at %d, expected %v at %d", typ, n, from, to, got, i, best, at)
		}
		sub := block.Subblock(from, to)
		if sub.Size() != to-from+1 {
			c.FailWith(detail(), "%s n=%d: subblock %d-%d has %d values", typ, n, from, to, sub.Size())
			return
		}
		for i, v := range sub {
			if v != block[from+i] {
				c.FailWith(detail(), "%s n=%d: value %d of subblock %d-%d is %v, expected %v", typ, n, i, from, to, v, block[from+i])
				return
			}
		}
		c.Eval(1)
		c.Key(fmt.Sprint(typ, n, from, to))
	}
	if n <= 16 {
		for from := 0; from < n; from++ {
			for to := from; to < n; to++ {
				check(from, to)
			}
		}
	}
	for k := 0; k < 10; k++ {
		from := c.Intn(n)
		to := from + c.Intn(n-from)
		// the values outside do not matter
		for i := range block {
			if i < from || i > to {
				block[i] = value() * 10
				if typ != "int" && c.Intn(4) == 0 {
					block[i] = T(math.Inf(1 - 2*c.Intn(2)))
				}
			}
		}
		check(from, to)
		for i := range block {
			if i < from || i > to {
				block[i] = value()
			}
		}
	}
}

func trimmed[T any](b []T) []T { return b[:min(len(b), 60)] }
