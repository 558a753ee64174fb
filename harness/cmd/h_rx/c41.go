package main

import (
	"fmt"
	"math"
	"net"
	"os"
	"strings"
	"time"

	"github.com/ftl/sdrainer/scope"

	"verif/prog"
	"verif/ref"
	"verif/vh"
	"verif/watch"
)

// c41 runs the program with a simulated TCI device and looks at its scope.
func c41(r *vh.Run) {
	r.Rule("a case is a run of the program as its own process (strain or decode mode, random threshold, debounce, TRX, IF limits and VFO) with a simulated TCI device and a client of its scope; the device sends periodic blocks (noise that falls off at the edges, then also a carrier, then a keyed carrier), so that the shown spectra, thresholds, markers, demodulated values and debounced states are known although blocks may be skipped; distinct: arguments")
	bin := prog.Binary()
	dir, err := os.MkdirTemp("", "verif-c41-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	env := &c34env{bin: bin, dir: dir, zones: []string{""}}
	workers, n := 5, r.N(20, 300)
	if raceStage() {
		workers, n = 3, r.N(3, 40)
	}
	r.Parallel(workers, n, func(i int) { r.Case(fmt.Sprintf("scope/%d", i), func(c *vh.C) { c41scope(c, env) }) })
}

const c41block = 512

// inverse is the periodic signal with the given spectrum; the center frequency is in the middle.
func inverse(spectrum []complex128) []float32 {
	n := len(spectrum)
	result := make([]float32, 2*n)
	for i := 0; i < n; i++ {
		sum := complex(0, 0)
		for j, v := range spectrum {
			sin, cos := math.Sincos(2 * math.Pi * float64((j-n/2)*i%n) / float64(n))
			sum += v * complex(cos, sin)
		}
		result[2*i], result[2*i+1] = float32(real(sum)), float32(imag(sum))
	}
	return result
}

// c41content is a block that is repeated, and what must be shown for it.
type c41content struct {
	iq    []float32
	shown []ref.Working // alternatives
}

func newC41Content(spectrum []complex128, edges []int) c41content {
	result := c41content{iq: inverse(spectrum)}
	for _, e := range edges {
		// the averages of the last 60 blocks are those of a single one
		w := (&ref.Workshop{N: c41block, Edge: e}).Block(result.iq)
		w.Floor *= 60
		w.Deviation *= 60
		result.shown = append(result.shown, w)
	}
	return result
}

type c41run struct {
	c         *vh.C
	p         *prog.Program
	d         *tciDevice
	t         *tciConn
	w         *watch.Client
	b         *c34band
	threshold float64
	debounce  int
	pace      time.Duration
	signal    int
	off, on   c41content
}

func (k *c41run) detail() any {
	return map[string]any{"args": k.p.Args, "stdout": tail(k.p.Output(), 2000), "stderr": tail(k.p.Errors(), 2000), "commands": k.d.history()}
}

func (k *c41run) fail(format string, args ...any) {
	k.c.FailWith(k.detail(), format, args...)
	k.c.Abort()
}

func (k *c41run) send(blocks ...c41content) {
	var data []float32
	for _, b := range blocks {
		data = append(data, b.iq...)
	}
	if k.t.iq(k.b.trx, 48000, data) != nil {
		k.fail("the connection to the device is ended (running: %v)", k.p.Running())
	}
	time.Sleep(k.pace)
}

// matches the shown spectrum with the repeated block.
func (k *c41run) matches(f *scope.SpectralFrame, content c41content) error {
	if len(f.Values) != c41block {
		return fmt.Errorf("a spectrum with %d values", len(f.Values))
	}
	for bin, v := range f.Values {
		if want := content.shown[0].Spectrum[bin]; !(math.Abs(v-want) <= 0.05) {
			return fmt.Errorf("bin %d: the spectrum shows %v, the received blocks have %v", bin, v, want)
		}
	}
	return k.threshOK(f, content)
}

func (k *c41run) threshOK(f *scope.SpectralFrame, content c41content) error {
	var wants []float64
	for _, w := range content.shown {
		want := w.Floor + k.threshold
		if math.Abs(f.MagnitudeMarkers["threshold"]-want) <= 0.05 {
			return nil
		}
		wants = append(wants, want)
	}
	return fmt.Errorf("the threshold is shown as %v, expected %v", f.MagnitudeMarkers["threshold"], wants)
}

// steady sends the block again and again, until the scope shows it, and it must not show anything else afterwards.
func (k *c41run) steady(name string, content c41content, signal int) {
	c := k.c
	seen, good, sent := 0, 0, 0
	since := time.Now()
	var last error
	for good < 3 {
		k.send(content, content, content, content)
		sent++
		spectral, _ := k.w.Take()
		for _, f := range spectral {
			seen++
			c.Count("spectra", 1)
			err := k.matches(f, content)
			if shown := int(f.FrequencyMarkers["signal_bin"]); err == nil && shown != signal {
				err = fmt.Errorf("the signal is marked in bin %d, expected %d", shown, signal)
			}
			switch {
			case err == nil:
				good++
			case good > 0:
				k.fail("%s: after %d matching spectra: %v", name, good, err)
			default:
				last = err
			}
		}
		if seen > 30 && good == 0 {
			k.fail("%s: none of %d spectra matches the received blocks: %v", name, seen, last)
		}
		if sent > 1500 && time.Since(since) > 100*time.Second && good < 3 {
			if seen == 0 && k.p.Running() {
				k.fail("%s: the scope does not show any spectrum for %d blocks", name, sent*4)
			}
			c.Inconclusive("%s: only %d spectra are seen", name, seen)
			c.Abort()
		}
	}
	c.Count("steady phases", 1)
}

// keyed switches the carrier on and off.
func (k *c41run) keyed() {
	c := k.c
	judged, frames := 0, 0
	segment, run := -1, 0
	var raw, debounced bool
	known := false
	on := false
	since := time.Now()
	k.w.Take()
	var pattern []c41content
	for sent := 0; judged < 300; sent++ {
		for len(pattern) < 4 {
			on = !on
			for n := 1 + c.Intn(12); n > 0; n-- {
				if on {
					pattern = append(pattern, k.on)
				} else {
					pattern = append(pattern, k.off)
				}
			}
		}
		k.send(pattern[:4]...)
		pattern = pattern[4:]
		spectral, demod := k.w.Take()
		c.Count("spectra", len(spectral))
		for _, f := range spectral {
			if err := k.threshOK(f, k.on); err != nil {
				k.fail("keyed carrier: %v", err)
			}
		}
		for _, f := range demod {
			frames++
			c.Count("demodulated blocks", 1)
			v, th := f.Values["value"], f.Values["threshold"]
			ok := false
			for _, content := range []c41content{k.off, k.on} {
				for _, w := range content.shown {
					ok = ok || math.Abs(v-w.Spectrum[k.signal]) <= 0.05 && math.Abs(th-w.Floor-w.Deviation) <= 0.1
				}
			}
			if !ok {
				k.fail("keyed carrier: the demodulator shows %v, bin %d has %v or %v, floor %v, deviation %v", f.Values, k.signal, k.off.shown[0].Spectrum[k.signal], k.on.shown[0].Spectrum[k.signal], k.on.shown[0].Floor, k.on.shown[0].Deviation)
			}
			state, shown := f.Values["state"] > 0, f.Values["debounced"] > 0
			if state != (v > th) {
				k.fail("keyed carrier: the demodulator shows %v", f.Values)
			}
			if f.Segment != segment {
				segment, run, known = f.Segment, 0, false
			}
			if run == 0 || state != raw {
				raw, run = state, 1
			} else {
				run++
			}
			if run >= k.debounce {
				debounced, known = raw, true
			}
			if known {
				judged++
				if shown != debounced {
					k.fail("keyed carrier: the state is %v for %d blocks, it is shown as %v with a debounce threshold of %d", raw, run, shown, k.debounce)
				}
				if shown != state {
					c.Count("debounced changes", 1)
				}
			}
		}
		if sent > 1500 && time.Since(since) > 100*time.Second && judged < 300 {
			if frames == 0 && k.p.Running() {
				k.fail("keyed carrier: no demodulator is shown for %d blocks", sent*4)
			}
			c.Inconclusive("keyed carrier: only %d states are judged", judged)
			c.Abort()
		}
	}
}

func c41scope(c *vh.C, env *c34env) {
	k := &c41run{c: c, threshold: 15, debounce: 1, b: newC34Band(c), pace: 12 * time.Millisecond, signal: -1}
	if raceStage() {
		k.pace = 30 * time.Millisecond
	}
	decode := c.Intn(3) == 0
	mode := "strain"
	if decode {
		mode = "decode"
	}
	edge := c.Intn(10) * 8
	limit := int(24000 - (float64(edge)+0.5)*93.75)
	if edge == 0 {
		limit = 24000
	}
	vfo := 60 + edge + c.Intn(c41block-2*(60+edge)) // bin
	other := k.b.trx + 1
	vfoHz := int(math.Round(float64(vfo-c41block/2) * 93.75))
	k.d = newTCIDevice(c, greeting{limit, []string{
		fmt.Sprintf("dds:%d,14000000;", other), fmt.Sprintf("dds:%d,%d;", k.b.trx, k.b.center),
		fmt.Sprintf("if:%d,0,%d;", k.b.trx, vfoHz), fmt.Sprintf("if:%d,1,1234;", k.b.trx), fmt.Sprintf("if:%d,0,4321;", other),
	}}.send, nil)
	defer k.d.close()
	if c.Intn(2) == 0 {
		k.d.slow.Store(int64(c.Intn(1000)))
	}
	port := telnetPort()
	args := []string{mode, "tci", "--host", k.d.address, trxFlag(c, k.b.trx), "--scope", fmt.Sprintf("--scope-address=127.0.0.1:%d", port)}
	if c.Intn(3) > 0 {
		k.threshold = float64(12 + c.Intn(15))
		args = append(args, fmt.Sprintf("--threshold=%v", k.threshold))
	}
	if c.Intn(3) > 0 {
		k.debounce = 1 + c.Intn(6)
		args = append(args, fmt.Sprintf("--debounce=%d", k.debounce))
	}
	if !decode {
		args = append(args, fmt.Sprintf("--telnet_port=%d", telnetPort()), "--silence=1h", "--busy=1h")
		if c.Intn(3) == 0 {
			args = append(args, "--show_listeners", "--show_spots")
		}
	}

	// the noise falls off at the edges
	level := math.Pow(10, -3-2*c.Float64())
	noise := make([]complex128, c41block)
	for i := range noise {
		a := level * (0.5 + c.Float64())
		if i < edge-2 || i > c41block-1-(edge-2) {
			a /= 10
		}
		sin, cos := math.Sincos(2 * math.Pi * c.Float64())
		noise[i] = complex(a*cos, a*sin)
	}
	edges := []int{edge}
	if edge > 0 {
		edges = append(edges, edge+1)
	}
	k.off = newC41Content(noise, edges)
	// the carrier is not in the quietest part of the noise
	carrier := vfo
	for same := false; !same; {
		if !decode {
			carrier = 60 + edge + c.Intn(c41block-2*(60+edge))
		}
		loud := append([]complex128(nil), noise...)
		loud[carrier] *= complex(level/absC(noise[carrier])*math.Pow(10, (k.threshold+15)/20), 0)
		k.on = newC41Content(loud, edges)
		same = true
		for i, w := range k.on.shown {
			same = same && math.Abs(w.Floor-k.off.shown[i].Floor) < 0.02 && math.Abs(w.Deviation-k.off.shown[i].Deviation) < 0.05
		}
		if !same && decode { // a little less quiet there
			for i := range noise {
				if absInt(i-vfo) < 50 {
					noise[i] *= 1.1
				}
			}
			k.off = newC41Content(noise, edges)
		}
	}
	k.signal = carrier

	k.p = env.start(c, args...)
	defer k.p.Kill()
	early := c.Intn(2) == 0 // the scope's client is there before the device
	if early {
		k.w = watch.Scope(fmt.Sprintf("127.0.0.1:%d", port), "demod")
		defer k.w.End()
	}
	c.Key(strings.Join(args[3:], " ") + fmt.Sprint(limit, vfo))
	k.t = k.d.connected(c)
	if !early {
		time.Sleep(time.Duration(c.Intn(200)) * time.Millisecond)
		k.w = watch.Scope(fmt.Sprintf("127.0.0.1:%d", port), "demod")
		defer k.w.End()
	}
	none := -1
	if decode {
		none = vfo
	}
	k.steady("noise", k.off, none)
	k.steady("carrier", k.on, carrier)
	k.keyed()
	if c.Intn(2) == 0 && !decode {
		k.steady("carrier again", k.on, carrier)
	}
	k.p.End(c, terminations[c.Intn(len(terminations))], k.detail)
	if conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); err == nil {
		conn.Close()
		k.fail("the scope still listens after the end")
	}
	c.Sample(map[string]any{"args": k.p.Args, "limit": limit})
}

func absC(v complex128) float64 { return math.Hypot(real(v), imag(v)) }
