package main

import (
	"fmt"
	"math"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/gorilla/websocket"

	"github.com/ftl/sdrainer/scope"

	"verif/prog"
	"verif/ref"
	"verif/vh"
)

// c38 runs the program with a simulated KiwiSDR.
func c38(r *vh.Run) {
	r.Rule("a case is a run of the program as its own process with a simulated KiwiSDR and a client of its scope: (strain) with random flags, the session must be the requested one, the scope must show the spectra of exactly the sent samples with the configured threshold over the noise within the observed bandwidth, and carriers must be listened to and released; (refuse) an unreachable or invalid host ends the program with an error; (end) a termination signal at a random point, also with a lost or refusing KiwiSDR; distinct: flags")
	bin := prog.Binary()
	dir, err := os.MkdirTemp("", "verif-c38-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	env := &c38env{bin, dir}
	var wg sync.WaitGroup
	run := func(kind string, workers, n int, f func(c *vh.C, env *c38env)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.Parallel(workers, n, func(i int) { r.Case(fmt.Sprintf("%s/%d", kind, i), func(c *vh.C) { f(c, env) }) })
		}()
	}
	if raceStage() {
		run("strain", 4, r.N(4, 40), c38strain)
		run("end", 4, r.N(30, 400), c38end)
	} else {
		run("strain", 5, r.N(20, 300), c38strain)
		run("refuse", 1, r.N(12, 100), c38refuse)
		run("end", 6, r.N(80, 1200), c38end)
	}
	wg.Wait()
}

type c38env struct{ bin, dir string }

var nextPort atomic.Int64

// freePort finds a port outside of the range of ephemeral ports.
func freePort() int {
	for {
		port := 12000 + (os.Getpid()*41+int(nextPort.Add(1)))%18000
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
		if err == nil {
			l.Close()
			return port
		}
	}
}

// c38run is a run of the program.
type c38run struct {
	p          *prog.Program
	sdr        *sdr
	args       []string
	user, pass string
	center     float64
	bandwidth  int
	threshold  float64
	telnetPort int
	scopePort  int
}

func (r *c38run) detail() any {
	return map[string]any{"args": r.args, "stdout": r.p.Output(), "stderr": r.p.Errors()}
}

func (env *c38env) start(c *vh.C, extra ...string) *c38run {
	r := &c38run{sdr: newSDR(c, nil), center: 7020000, bandwidth: 10000, threshold: 15, telnetPort: freePort(), scopePort: freePort()}
	flag := func(name string, value any) { r.args = append(r.args, fmt.Sprintf("--%s=%v", name, value)) }
	r.args = []string{"strain", "kiwi"}
	flag("host", r.sdr.address)
	flag("telnet_port", r.telnetPort)
	flag("scope", true)
	flag("scope-address", fmt.Sprintf("127.0.0.1:%d", r.scopePort))
	if c.Intn(3) > 0 {
		r.user = strings.ReplaceAll(randomSecret(c), "\x00", "0")
		flag("username", r.user)
	}
	if c.Intn(3) > 0 {
		r.pass = strings.ReplaceAll(randomSecret(c), "\x00", "0")
		flag("password", r.pass)
	}
	if c.Intn(3) > 0 {
		r.center = float64(100000 + c.Intn(29000000))
		flag("center", r.center)
	}
	if c.Intn(2) > 0 {
		r.bandwidth = 1000 + c.Intn(11001)
		flag("bandwidth", r.bandwidth)
	}
	if c.Intn(2) == 0 {
		r.threshold = float64(8 + c.Intn(15))
		flag("threshold", r.threshold)
	}
	if c.Intn(3) == 0 {
		flag("rx", r.center+float64(c.Intn(10000)-5000))
	}
	r.args = append(r.args, extra...)
	r.p = prog.Start(c, env.bin, env.dir, []string{"VERIF_LOCALCOPY_DIR=" + env.dir}, r.args...)
	c.Key(fmt.Sprint(r.args))
	return r
}

func (r *c38run) stop() {
	r.p.Kill()
	r.sdr.close()
}

func (r *c38run) session(c *vh.C) *session {
	var s *session
	if !vh.WaitForD(func() bool {
		select {
		case s = <-r.sdr.sessions:
		default:
		}
		return s != nil || !r.p.Running()
	}, 3*vh.Patience) || s == nil {
		c.FailWith(r.detail(), "the program does not connect to the KiwiSDR (running: %v, %v)", r.p.Running(), r.p.State)
		c.Abort()
	}
	return s
}

// watcher is a client of the scope that connects again and again.
type watcher struct {
	mu       sync.Mutex
	spectral []*scope.SpectralFrame
	demod    []*scope.TimeFrame
	ends     atomic.Bool
}

func watch(address string) *watcher {
	w := &watcher{}
	go func() {
		for !w.ends.Load() {
			w.connect(address)
			time.Sleep(5 * time.Millisecond)
		}
	}()
	return w
}

func (w *watcher) connect(address string) {
	client := scope.NewClient(address)
	if client.Open() != nil {
		return
	}
	defer client.Close()
	times, spectral, err := client.GetFrames()
	if err != nil {
		return
	}
	for times != nil || spectral != nil {
		select {
		case f, ok := <-times:
			if !ok {
				times = nil
			} else if f.Stream == "demod" {
				w.mu.Lock()
				w.demod = append(w.demod, f)
				w.mu.Unlock()
			}
		case f, ok := <-spectral:
			if !ok {
				spectral = nil
			} else {
				w.mu.Lock()
				w.spectral = append(w.spectral, f)
				w.mu.Unlock()
			}
		}
	}
}

func (w *watcher) take() ([]*scope.SpectralFrame, []*scope.TimeFrame) {
	w.mu.Lock()
	defer w.mu.Unlock()
	a, b := w.spectral, w.demod
	w.spectral, w.demod = nil, nil
	return a, b
}

func (w *watcher) seen() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.spectral) > 0
}

const kiwiBlock = 512

// carriers is what a KiwiSDR receives.
type carriers struct {
	rnd   *rand.Rand
	noise float64
	bins  map[int]float64 // amplitude
	pos   int
}

func (k *carriers) next() []int16 {
	result := make([]int16, 2*kiwiBlock)
	for i := 0; i < kiwiBlock; i++ {
		re, im := k.rnd.NormFloat64()*k.noise, k.rnd.NormFloat64()*k.noise
		for bin, amp := range k.bins {
			sin, cos := math.Sincos(2 * math.Pi * float64((bin-kiwiBlock/2)*(k.pos+i)%kiwiBlock) / kiwiBlock)
			re += amp * cos
			im += amp * sin
		}
		result[2*i] = int16(max(min(math.Round(re), 32767), -32768))
		result[2*i+1] = int16(max(min(math.Round(im), 32767), -32768))
	}
	k.pos += kiwiBlock
	return result
}

func floats(samples []int16) []float32 {
	result := make([]float32, len(samples))
	for i, v := range samples {
		result[i] = float32(v) / 32767
	}
	return result
}

// c38state compares what the program shows with what the KiwiSDR sends.
type c38state struct {
	c       *vh.C
	r       *c38run
	s       *session
	w       *watcher
	shops   []*ref.Workshop // the edge width may be rounded in any direction
	current [][]ref.Working // blocks of the current batch, per workshop
	peaks   map[int]bool
	band    *carriers

	signal int // the last signal bin that was shown
}

// batch sends 100 blocks; the number of frames that were received, which may be 0 if the scope's client was too slow.
func (k *c38state) batch() int {
	c := k.c
	k.current = make([][]ref.Working, len(k.shops))
	for sent := 0; sent < 100; {
		n := min(1+c.Intn(3), 100-sent)
		var samples []int16
		for i := 0; i < n; i++ {
			block := k.band.next()
			for j, shop := range k.shops {
				k.current[j] = append(k.current[j], shop.Block(floats(block)))
			}
			samples = append(samples, block...)
		}
		if err := k.s.send(websocket.BinaryMessage, snd(c, samples)); err != nil {
			c.FailWith(k.r.detail(), "the session is ended: %v", err)
			c.Abort()
		}
		sent += n
		time.Sleep(time.Duration(n) * time.Millisecond)
	}
	vh.WaitForD(k.w.seen, 1*time.Second)
	spectral, demod := k.w.take()
	if len(spectral) > 1 {
		c.FailWith(k.r.detail(), "%d spectra are shown for 100 blocks", len(spectral))
		c.Abort()
	}
	for _, f := range spectral {
		k.judge(f, demod)
	}
	c.Count("spectra", len(spectral))
	c.Count("demodulated blocks", len(demod))
	return len(spectral)
}

func (k *c38state) judge(f *scope.SpectralFrame, demod []*scope.TimeFrame) {
	c := k.c
	if len(f.Values) != kiwiBlock {
		c.FailWith(k.r.detail(), "a spectrum with %d values", len(f.Values))
		c.Abort()
	}
	for bin, v := range f.Values {
		want := 0.0
		zero := false // integer samples can cancel each other exactly in some bins
		for _, w := range k.current[0] {
			want += w.Spectrum[bin] / 100
			zero = zero || w.Spectrum[bin] < w.Floor-60
		}
		if zero {
			c.Count("bins with a zero", 1)
			continue
		}
		if !(math.Abs(v-want) <= 0.05) {
			c.FailWith(k.r.detail(), "bin %d: the spectrum shows %v, the mean of the last 100 blocks is %v", bin, v, want)
			c.Abort()
		}
	}
	threshold := f.MagnitudeMarkers["threshold"]
	ok := false
	var wants []float64
	for _, list := range k.current {
		want := list[99].Floor + k.r.threshold
		wants = append(wants, want)
		ok = ok || math.Abs(threshold-want) <= 0.05
	}
	if !ok {
		c.FailWith(k.r.detail(), "the threshold is shown as %v, expected %v", threshold, wants)
		c.Abort()
	}
	for bin, v := range f.Values {
		if v > threshold-0.001 && (bin == 0 || f.Values[bin-1] <= v+0.001) && (bin == kiwiBlock-1 || f.Values[bin+1] <= v+0.001) {
			k.peaks[bin] = true
		}
	}
	k.signal = int(f.FrequencyMarkers["signal_bin"])
	if k.signal != -1 && !k.peaks[k.signal] {
		c.FailWith(k.r.detail(), "a listener is in bin %d, but there never was a peak: %v", k.signal, k.peaks)
		c.Abort()
	}
	for _, d := range demod {
		// one of the listeners in one of the blocks
		ok := false
		for _, list := range k.current {
			for _, w := range list {
				if math.Abs(d.Values["threshold"]-w.Floor-w.Deviation) > 0.05 {
					continue
				}
				for bin := range k.peaks {
					ok = ok || math.Abs(w.Spectrum[bin]-d.Values["value"]) <= 0.05
				}
			}
		}
		if !ok {
			c.FailWith(k.r.detail(), "a demodulator shows %v, which is none of the received signals", d.Values)
			c.Abort()
		}
		if (d.Values["state"] > 0) != (d.Values["value"] > d.Values["threshold"]) {
			c.FailWith(k.r.detail(), "a demodulator shows %v", d.Values)
			c.Abort()
		}
	}
}

func c38strain(c *vh.C, env *c38env) {
	busy, silence := "1h", "1h"
	release := c.Intn(3) > 0
	if c.Intn(2) == 0 && release {
		busy = "2s"
	} else if release {
		silence = "2s"
	}
	r := env.start(c, fmt.Sprintf("--debounce=%d", 1+c.Intn(3)), "--busy="+busy, "--silence="+silence)
	defer r.stop()
	s := r.session(c)
	c.Reach(s.setUp, func() any { return s.received() }, "the client does not complete the setup")
	if err := checkSetup(s.received(), r.user, r.pass, r.center, r.bandwidth); err != nil {
		c.FailWith(map[string]any{"messages": s.received(), "program": r.detail()}, "%v", err)
		c.Abort()
	}
	k := &c38state{c: c, r: r, s: s, w: watch(fmt.Sprintf("127.0.0.1:%d", r.scopePort)), peaks: map[int]bool{}, signal: -1}
	defer k.w.ends.Store(true)
	edge := float64(12000-r.bandwidth) / 2 * kiwiBlock / 12000
	k.shops = []*ref.Workshop{{N: kiwiBlock, Edge: int(math.Floor(edge))}}
	for _, e := range []int{int(math.Ceil(edge)), int(math.Floor(edge - 0.03))} { // half a Hz may be lost
		if e != k.shops[0].Edge && e >= 0 {
			k.shops = append(k.shops, &ref.Workshop{N: kiwiBlock, Edge: e})
		}
	}
	// signals in the edges do not matter
	k.band = &carriers{rnd: c.Rand, noise: 3 + 60*c.Float64(), bins: map[int]float64{}}
	s.msg(" audio_rate=12000")

	// noise, until the scope's client sees it
	received := 0
	for i := 0; received < 3; i++ {
		received += k.batch()
		if i == 20 {
			if received == 0 && r.p.Running() {
				c.FailWith(r.detail(), "the scope does not show any spectrum for %d blocks", 100*(i+1))
			} else {
				c.Inconclusive("only %d spectra are seen", received)
			}
			c.Abort()
		}
	}
	if k.signal != -1 && len(k.peaks) == 0 {
		c.FailWith(r.detail(), "a listener is in bin %d without any signal", k.signal)
		c.Abort()
	}

	// carriers
	width := float64(r.bandwidth) / 12000 * kiwiBlock / 2
	for i := 0; i < 1+c.Intn(2); i++ {
		bin := kiwiBlock/2 + int((c.Float64()*2-1)*0.8*width)
		k.band.bins[bin] = k.band.noise * math.Sqrt(2*math.Pow(10, (r.threshold+15)/10)/kiwiBlock)
	}
	attached := func() bool {
		for bin := range k.band.bins {
			if k.signal == bin {
				return true
			}
		}
		return false
	}
	since := time.Now()
	for i := 0; !attached(); i++ {
		received += k.batch()
		if i == 60 {
			c.FailWith(r.detail(), "the carriers %v are not listened to after %d spectra, the signal is in bin %d", k.band.bins, i, k.signal)
			c.Abort()
		}
	}
	c.Count("carriers found", 1)
	if release {
		for i := 0; k.signal != -1; i++ {
			received += k.batch()
			if i > 60 && time.Since(since) > 60*time.Second {
				c.FailWith(r.detail(), "the listener in bin %d is not released", k.signal)
				c.Abort()
			}
		}
		c.Count("carriers released", 1)
	} else {
		for time.Since(since) < 5*time.Second {
			received += k.batch()
			if k.signal == -1 {
				c.FailWith(r.detail(), "the listener is released although the timeouts have not passed")
				c.Abort()
			}
		}
		c.Count("carriers kept", 1)
	}

	// the cluster interface
	conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", r.telnetPort))
	if err != nil {
		c.FailWith(r.detail(), "the telnet server does not answer: %v", err)
		c.Abort()
	}
	defer conn.Close()
	conn.SetReadDeadline(time.Now().Add(30 * time.Second))
	greeting := make([]byte, 8)
	if n, err := conn.Read(greeting); err != nil || !strings.HasPrefix("SDRainer", string(greeting[:n])) {
		c.FailWith(r.detail(), "the telnet server greets with %q, %v", greeting[:n], err)
		c.Abort()
	}
	c.Sample(map[string]any{"args": r.args, "spectra": received})
	r.p.End(c, anySignal(c), r.detail)
	c.Reach(s.ended, nil, "the connection to the KiwiSDR is still open after the end of the program")
}

func anySignal(c *vh.C) syscall.Signal {
	return []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP, syscall.SIGQUIT}[c.Intn(4)]
}

func c38refuse(c *vh.C, env *c38env) {
	r := &c38run{sdr: newSDR(c, nil), telnetPort: freePort()}
	what, host := "nobody listens", r.sdr.address
	switch c.Intn(5) {
	case 4:
		what = "the telnet port is occupied"
		l, err := net.Listen("tcp", ":0")
		if err != nil {
			panic(err)
		}
		defer l.Close()
		r.telnetPort = l.Addr().(*net.TCPAddr).Port
	case 0:
		r.sdr.close()
	case 1:
		what, host = "the port is invalid", "127.0.0.1:port"
	case 2:
		what, host = "the port is out of range", "127.0.0.1:99999"
	case 3:
		what = "the server is not a KiwiSDR"
		r.sdr.server.Handler = nil
	}
	r.args = []string{"strain", "kiwi", "--host=" + host, fmt.Sprintf("--telnet_port=%d", r.telnetPort)}
	r.p = prog.Start(c, env.bin, env.dir, []string{"VERIF_LOCALCOPY_DIR=" + env.dir}, r.args...)
	defer r.stop()
	if !vh.WaitForD(func() bool { return !r.p.Running() }, 60*time.Second) {
		c.FailWith(r.detail(), "the program does not end although %s", what)
		return
	}
	if r.p.State == nil {
		c.FailWith(r.detail(), "the program ends with success although %s", what)
	}
	if e := r.p.Errors(); strings.Contains(e, "panic:") || strings.Contains(e, "fatal error:") || strings.Contains(e, "SIGSEGV") {
		c.FailWith(r.detail(), "the program crashes if %s", what)
	}
	c.Count(what, 1)
	c.Key(host)
}

// c38end: a termination signal at any time.
func c38end(c *vh.C, env *c38env) {
	r := env.start(c)
	defer r.stop()
	s := r.session(c)
	what := "at the start"
	if c.Intn(6) > 0 {
		what = "set up"
		c.Reach(s.setUp, func() any { return s.received() }, "the client does not complete the setup")
	}
	var w *watcher
	if c.Intn(2) == 0 {
		w = watch(fmt.Sprintf("127.0.0.1:%d", r.scopePort))
		defer w.ends.Store(true)
	}
	stop := make(chan struct{})
	defer close(stop)
	switch c.Intn(5) {
	case 0:
		what += ", streaming"
		s.msg(" audio_rate=12000")
		band := &carriers{rnd: rand.New(rand.NewSource(c.Int63())), noise: 20, bins: map[int]float64{100: 300}}
		data := snd(c, append(band.next(), band.next()...))
		go func() {
			for s.send(websocket.BinaryMessage, data) == nil {
				select {
				case <-stop:
					return
				case <-time.After(200 * time.Microsecond):
				}
			}
		}()
	case 1:
		what += ", refused"
		s.msg([]string{" badp=1", " too_busy=4", " down=1"}[c.Intn(3)])
	case 2:
		what += ", lost"
		if c.Intn(2) == 0 {
			s.msg(" audio_rate=12000")
		}
		if tcp, ok := s.raw.(*net.TCPConn); ok && c.Intn(2) == 0 {
			tcp.SetLinger(0)
		}
		s.raw.Close()
	case 3:
		what += ", server gone"
		s.msg(" audio_rate=12000")
		r.sdr.close()
	}
	time.Sleep(time.Duration(c.Intn(60)) * time.Millisecond)
	c.Count(what, 1)
	// the signal must not arrive before the program can handle it
	if !vh.WaitForD(func() bool {
		conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", r.telnetPort))
		if err == nil {
			conn.Close()
		}
		return err == nil || !r.p.Running()
	}, vh.Patience) {
		c.FailWith(r.detail(), "the telnet server of the program cannot be reached")
		c.Abort()
	}
	r.p.End(c, anySignal(c), r.detail)
}
