// Package ref computes what a receiver should see, by own means.
package ref

import (
	"math"
	"math/cmplx"
	"sync"
)

var twiddles sync.Map // by size

func twiddle(n int) []complex128 {
	if t, ok := twiddles.Load(n); ok {
		return t.([]complex128)
	}
	t := make([]complex128, n)
	for k := range t {
		t[k] = cmplx.Exp(complex(0, -2*math.Pi*float64(k)/float64(n)))
	}
	twiddles.Store(n, t)
	return t
}

// Fourier is the discrete Fourier transform: even sizes are halved, odd ones computed by definition.
func Fourier(x []complex128) []complex128 {
	n := len(x)
	if n == 1 {
		return []complex128{x[0]}
	}
	result, tw := make([]complex128, n), twiddle(n)
	if n%2 == 1 {
		for k := range result {
			for i, v := range x {
				result[k] += v * tw[k*i%n]
			}
		}
		return result
	}
	even, odd := make([]complex128, n/2), make([]complex128, n/2)
	for i := range even {
		even[i], odd[i] = x[2*i], x[2*i+1]
	}
	even, odd = Fourier(even), Fourier(odd)
	for k := 0; k < n/2; k++ {
		t := odd[k] * tw[k]
		result[k], result[k+n/2] = even[k]+t, even[k]-t
	}
	return result
}

// Working is what the receiver has to work with in one block.
type Working struct {
	Spectrum  []float64 // dBm
	Floor     float64   // mean of the last 60 blocks, blocks before the start count as zero
	Deviation float64
}

// Workshop computes it from the data that is fed into the receiver.
type Workshop struct {
	N, Edge    int
	Floors     []float64
	deviations []float64
}

func (w *Workshop) Block(iq []float32) Working {
	n := w.N
	x := make([]complex128, n)
	for i := range x {
		x[i] = complex(float64(iq[2*i]), float64(iq[2*i+1]))
	}
	f := Fourier(x)
	dBm := func(power float64) float64 { return 10*math.Log10(20*power/float64(n*n)) + 120 }
	spectrum, psd := make([]float64, n), make([]float64, n)
	for i := range f {
		p := real(f[i])*real(f[i]) + imag(f[i])*imag(f[i])
		psd[(i+n/2)%n], spectrum[(i+n/2)%n] = p, dBm(p)
	}
	// the quietest tenth between the edges
	size := (n - 2*w.Edge) / 10
	floor, variance := math.Inf(1), 0.0
	for a := w.Edge; a+size <= n-w.Edge; a += size {
		mean := 0.0
		for i := a; i < a+size; i++ {
			mean += psd[i] / float64(size)
		}
		if mean < floor {
			floor, variance = mean, 0
			for i := a; i < a+size; i++ {
				variance += (psd[i] - mean) * (psd[i] - mean) / float64(size)
			}
		}
	}
	w.Floors = append(w.Floors, dBm(floor))
	w.deviations = append(w.deviations, dBm(math.Sqrt(variance))/4)
	last60 := func(values []float64) float64 {
		sum := 0.0
		for _, v := range values[max(0, len(values)-60):] {
			sum += v
		}
		return sum / 60
	}
	return Working{spectrum, last60(w.Floors), last60(w.deviations)}
}
