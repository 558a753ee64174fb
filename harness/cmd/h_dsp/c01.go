package main

import (
	"fmt"
	"math"
	"math/cmplx"
	"math/rand"

	"github.com/ftl/sdrainer/dsp"

	"verif/vh"
)

// refDFT is the centred discrete Fourier transform, computed by its definition.
func refDFT(iq []float64) []complex128 {
	n := len(iq) / 2
	tw := make([]complex128, n)
	for i := range tw {
		tw[i] = cmplx.Exp(complex(0, -2*math.Pi*float64(i)/float64(n)))
	}
	result := make([]complex128, n)
	for f := 0; f < n; f++ {
		var sum complex128
		for i := 0; i < n; i++ {
			sum += complex(iq[2*i], iq[2*i+1]) * tw[(f*i)%n]
		}
		// frequency f >= n/2 means f-n
		offset := f
		if f >= n/2 {
			offset = f - n
		}
		result[offset+n/2] = sum
	}
	return result
}

func genIQ(rnd *rand.Rand, n int) ([]float64, string) {
	iq := make([]float64, 2*n)
	kind := rnd.Intn(6)
	amp := math.Pow(10, rnd.Float64()*8-5)
	switch kind {
	case 0: // noise
		for i := range iq {
			iq[i] = amp * rnd.NormFloat64()
		}
	case 1: // impulse
		iq[rnd.Intn(2*n)] = amp
	case 2: // constant
		a, b := rnd.Float64()*amp, rnd.Float64()*amp
		for i := 0; i < n; i++ {
			iq[2*i], iq[2*i+1] = a, b
		}
	case 3: // complex tone
		k := rnd.Intn(n) - n/2
		ph := rnd.Float64() * 7
		for i := 0; i < n; i++ {
			s, c := math.Sincos(2*math.Pi*float64(k)*float64(i)/float64(n) + ph)
			iq[2*i], iq[2*i+1] = amp*c, amp*s
		}
	case 4: // tones with noise between the bins
		for j := 0; j < 1+rnd.Intn(5); j++ {
			k := rnd.Float64()*float64(n) - float64(n)/2
			a := amp * rnd.Float64()
			for i := 0; i < n; i++ {
				s, c := math.Sincos(2 * math.Pi * k * float64(i) / float64(n))
				iq[2*i] += a*c + 0.001*amp*rnd.NormFloat64()
				iq[2*i+1] += a*s + 0.001*amp*rnd.NormFloat64()
			}
		}
	case 5: // silence
	}
	return iq, fmt.Sprintf("kind%d amp%.3g", kind, amp)
}

func conv[T dsp.Number](v []float64) ([]T, []float64) {
	t := make([]T, len(v))
	back := make([]float64, len(v))
	for i, x := range v {
		t[i] = T(x)
		back[i] = float64(t[i])
	}
	return t, back
}

var projections = []string{"psd", "magnitude", "dB", "identity-real", "identity-imag"}

func projection[T dsp.Number](name string) func(complex128, int) T {
	switch name {
	case "psd":
		return dsp.PSD[T]
	case "magnitude":
		return dsp.Magnitude[T]
	case "dB":
		return dsp.MagnitudeIndB[T]
	case "identity-real":
		return func(c complex128, _ int) T { return T(real(c)) }
	}
	return func(c complex128, _ int) T { return T(imag(c)) }
}

func fftSequence[T dsp.Number](c *vh.C, eps float64, maxSize int) {
	f := dsp.NewFFT[T]()
	garbage := func(n int) []T {
		s := make([]T, n)
		for i := range s {
			s[i] = T(c.NormFloat64() * 1e6)
		}
		return s
	}
	var spectrum, psd []T
	last := 0
	for step := 0; step < 4; step++ {
		n := last
		if last == 0 || c.Intn(3) > 0 {
			switch c.Intn(3) {
			case 0:
				n = 2 << c.Intn(int(math.Log2(float64(maxSize))))
			default:
				n = 2 * (1 + c.Intn(maxSize/2))
			}
		}
		if n != last || c.Intn(2) == 0 {
			spectrum, psd = garbage(n), garbage(n)
		} // otherwise the buffers contain the result of the previous block
		last = n
		raw, kind := genIQ(c.Rand, n)
		iq, back := conv[T](raw)
		want := refDFT(back)
		proj := projections[c.Intn(len(projections))]
		withPSD := c.Intn(4) > 0
		if withPSD {
			f.IQToSpectrumAndPSD(spectrum, psd, iq, projection[T](proj))
		} else {
			f.IQToSpectrum(spectrum, iq, projection[T](proj))
		}
		c.Eval(1)
		c.Count("bins compared", n)
		c.Count("projection "+proj, 1)
		c.Key(fmt.Sprint(n, proj, kind[:5]))
		c.Sample(map[string]any{"size": n, "samples": kind, "projection": proj, "step": step})
		maxAbs := 0.0
		for _, w := range want {
			maxAbs = max(maxAbs, cmplx.Abs(w))
		}
		sumAbs := 0.0
		for _, v := range back {
			sumAbs += math.Abs(v)
		}
		tolAmp := eps*maxAbs + 1e-11*sumAbs + 1e-30
		for k, w := range want {
			a := cmplx.Abs(w)
			lo, hi := max(0, a-tolAmp), a+tolAmp
			where := fmt.Sprintf("size %d %s step %d bin %d projection %s", n, kind, step, k, proj)
			if withPSD {
				got := float64(psd[k])
				if !(got >= lo*lo*(1-eps)-1e-38 && got <= hi*hi*(1+eps)+1e-38) {
					c.Failf("%s: power density %g, expected %g", where, got, a*a)
				}
			}
			got := float64(spectrum[k])
			switch proj {
			case "psd":
				if !(got >= lo*lo*(1-eps)-1e-38 && got <= hi*hi*(1+eps)+1e-38) {
					c.Failf("%s: power %g, expected %g", where, got, a*a)
				}
			case "magnitude":
				if !(got >= lo*(1-eps)-1e-19 && got <= hi*(1+eps)+1e-19) {
					c.Failf("%s: magnitude %g, expected %g", where, got, a)
				}
			case "dB":
				db := func(v float64) float64 { return 10 * math.Log10(20*v*v/float64(n)/float64(n)) }
				l, h := db(lo), db(hi)
				if math.IsNaN(got) || got < l-1e-3 || got > h+1e-3 {
					if lo*lo > 1e-36 || got > h+1e-3 || math.IsNaN(got) {
						c.Failf("%s: %g dB, expected %g dB", where, got, db(a))
					}
				}
				if withPSD {
					viaPSD := float64(dsp.PSDValueIndB(psd[k], n))
					if !(math.Abs(viaPSD-got) < 1e-3) && !(math.IsInf(viaPSD, -1) && math.IsInf(got, -1)) && a*a > 1e-36 {
						c.Failf("%s: %g dB, but the power value has %g dB", where, got, viaPSD)
					}
				}
			case "identity-real":
				if !(math.Abs(got-real(w)) <= tolAmp*1.01+1e-30) {
					c.Failf("%s: real part %g, expected %g", where, got, real(w))
				}
			case "identity-imag":
				if !(math.Abs(got-imag(w)) <= tolAmp*1.01+1e-30) {
					c.Failf("%s: imaginary part %g, expected %g", where, got, imag(w))
				}
			}
		}
	}
}

func c01(r *vh.Run) {
	r.Rule("sequences of 4 IQ blocks (noise, impulse, constant, tones on and between bins, silence; 8 decades of amplitude) of random even sizes through one transformer with dirty output buffers, each bin compared with the naive DFT; distinct: (size, projection, kind of samples)")
	r.Parallel(8, r.N(400, 4000), func(i int) {
		r.Case(fmt.Sprintf("fft/%d", i), func(c *vh.C) {
			size := 300
			if i%10 == 0 {
				size = 1200
			}
			if i%2 == 0 {
				fftSequence[float32](c, 1e-5, size)
			} else {
				fftSequence[float64](c, 1e-9, size)
			}
		})
	})
	r.Parallel(8, r.N(200, 2000), func(i int) {
		r.Case(fmt.Sprintf("projection/%d", i), func(c *vh.C) {
			for j := 0; j < 200; j++ {
				v := complex(c.NormFloat64()*math.Pow(10, c.Float64()*20-10), c.NormFloat64()*math.Pow(10, c.Float64()*20-10))
				n := 2 * (1 + c.Intn(4096))
				p := real(v)*real(v) + imag(v)*imag(v)
				db := 10 * math.Log10(20*p/float64(n)/float64(n))
				if got := dsp.PSD[float64](v, n); math.Abs(got-p) > 1e-12*p {
					c.Failf("PSD(%v, %d) = %v, expected %v", v, n, got, p)
				}
				if got := dsp.Magnitude[float64](v, n); math.Abs(got-math.Sqrt(p)) > 1e-12*math.Sqrt(p) {
					c.Failf("Magnitude(%v, %d) = %v, expected %v", v, n, got, math.Sqrt(p))
				}
				if got := dsp.MagnitudeIndB[float64](v, n); math.Abs(got-db) > 1e-9 {
					c.Failf("MagnitudeIndB(%v, %d) = %v, expected %v", v, n, got, db)
				}
				if got := dsp.PSDValueIndB(p, n); math.Abs(got-db) > 1e-9 {
					c.Failf("PSDValueIndB(%v, %d) = %v, expected %v", p, n, got, db)
				}
				if got := float64(dsp.MagnitudeIndB[float32](v, n)); math.Abs(got-db) > 1e-4+1e-6*math.Abs(db) {
					c.Failf("MagnitudeIndB[float32](%v, %d) = %v, expected %v", v, n, got, db)
				}
				if got := float64(dsp.PSDValueIndB(float32(p), n)); math.Abs(got-db) > 1e-4+1e-6*math.Abs(db) {
					c.Failf("PSDValueIndB[float32](%v, %d) = %v, expected %v", p, n, got, db)
				}
				c.Eval(1)
				c.Key(fmt.Sprint("projection", v, n))
			}
		})
	})
}
