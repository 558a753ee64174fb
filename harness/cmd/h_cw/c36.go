package main

import (
	"fmt"
	"math"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/jfreymuth/pulse/proto"

	"verif/morse"
	"verif/prog"
	"verif/vh"
	"verif/watch"
)

// rates and pitches for which the tone falls in the filter bin
var pulsePitches = map[int][]int{
	8000:  {500, 800},
	16000: {500, 640, 800},
	22050: {450, 525, 630, 735},
	44100: {525, 630, 700, 735, 900},
	48000: {500, 600, 640, 750, 800},
	96000: {600, 640, 750, 800},
}
var pulseRates = []int{8000, 16000, 22050, 44100, 48000, 96000}

// c36 runs the real program with a simulated sound server.
func c36(r *vh.Run) {
	r.Rule("a case is a run of the program as its own process with a simulated Pulseaudio server, which converts the audio to the rate and channels that are asked for and sends it in packets of random size: (decode) the text that is keyed in the selected source must be printed exactly after a run-in, for random sources, sample rates, pitches, speeds, amplitudes and flags; (preset) with the right speed preset, without any run-in; (scope) the scope shows the audio blocks with their magnitude, the configured threshold, and states debounced as configured; (refuse) a missing or refused source ends the program with an error; (end) a termination signal at a random point, also after the server is gone; distinct: (configuration, text)")
	bin := prog.Binary()
	dir, err := os.MkdirTemp("", "verif-c36-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var wg sync.WaitGroup
	run := func(kind string, workers, n int, f func(c *vh.C, bin, dir string)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.Parallel(workers, n, func(i int) {
				r.Case(fmt.Sprintf("%s/%d", kind, i), func(c *vh.C) {
					d := filepath.Join(dir, fmt.Sprintf("%s-%d", kind, i))
					os.Mkdir(d, 0755)
					f(c, bin, d)
				})
			})
		}()
	}
	if os.Getenv("VERIF_STAGE") == "race" {
		run("decode", 4, r.N(8, 80), c36decode)
		run("end", 4, r.N(24, 300), c36end)
	} else {
		run("decode", 4, r.N(60, 1200), c36decode)
		run("scope", 2, r.N(8, 100), c36scope)
		run("preset", 2, r.N(30, 600), c36preset)
		run("refuse", 1, r.N(20, 200), c36refuse)
		run("end", 4, r.N(60, 1000), c36end)
	}
	wg.Wait()
}

// pulseRun is a program with a sound server.
type pulseRun struct {
	server  *pulseServer
	p       *prog.Program
	args    []string
	sources []pulseSource
	want    string
	wpm     float64

	magnitude float64 // the expected magnitude of the tone
	threshold float64
	debounce  int
}

func (r *pulseRun) detail() any {
	return map[string]any{"args": r.args, "sources": fmt.Sprint(r.sourceNames()), "wpm": r.wpm, "expected": r.want, "stdout": r.p.Output(), "stderr": r.p.Errors(), "server": r.server.history()}
}

func (r *pulseRun) sourceNames() []string {
	var result []string
	for _, s := range r.sources {
		result = append(result, fmt.Sprintf("%s %d/%d", s.name, s.rate, s.channels))
	}
	return result
}

// newPulseRun makes up to three sources with different texts, one of which is selected.
func newPulseRun(c *vh.C, dir string, preset bool) *pulseRun {
	result := &pulseRun{magnitude: 1, threshold: 0.75, debounce: 1}
	n := 1 + c.Intn(3)
	selected := c.Intn(n)
	rate := pulseRates[c.Intn(len(pulseRates))]
	pitch := pulsePitches[rate][c.Intn(len(pulsePitches[rate]))]
	result.args = []string{"decode", "pulse"}
	flag := func(name string, value any) {
		result.args = append(result.args, fmt.Sprintf("--%s=%v", name, value))
	}
	result.wpm = 14 + c.Float64()*16
	amp := 0.12 + 0.88*c.Float64()
	if preset {
		result.wpm = float64(12 + c.Intn(22))
		amp = 0.9
		flag("wpm", int(result.wpm))
	} else if c.Intn(3) == 0 {
		flag("wpm", 15+c.Intn(15))
	}
	if pitch != 700 || c.Intn(2) == 0 {
		flag("pitch", pitch)
	}
	switch c.Intn(4) {
	case 0: // without scaling the threshold must be lower than the amplitude
		flag("scale", 1)
		result.magnitude = amp
		result.threshold = math.Round(60*amp) / 100
		flag("magnitude", fmt.Sprintf("%.2f", result.threshold))
	case 1:
		if c.Intn(2) == 0 {
			flag("scale", fmt.Sprintf("%.2f", 0.95/amp))
			result.magnitude = 0.95
		} else { // scaled to twice the full scale, and limited
			flag("scale", fmt.Sprintf("%.2f", 2/amp))
			result.magnitude = 2 / math.Pi * (2*math.Asin(0.5) + math.Sqrt(1-0.25))
		}
	case 2:
		flag("scale", 0)
	}
	if c.Intn(2) == 0 {
		result.debounce = 1 + c.Intn(2)
		flag("debounce", result.debounce)
	}
	for i := 0; i < n; i++ {
		i := i
		text := morse.RandomText(c.Rand, morse.Letters, 2+c.Intn(3), 5)
		runIn := "paris paris "
		if preset {
			runIn = ""
		}
		s := pulseSource{name: fmt.Sprintf("source.%d.%s", i, []string{"mono", "analog-stereo", "x"}[c.Intn(3)]), rate: pulseRates[c.Intn(len(pulseRates))], channels: 1 + c.Intn(2)}
		if i == selected {
			s.rate = rate
			result.want = text
		}
		lead, phase := 0.2+c.Float64()*0.5, c.Float64()*7
		wpm := result.wpm
		s.audio = func(at int) []float32 {
			audio := make([]float32, int(lead*float64(at)))
			audio = append(audio, tone(runIn+text, float64(pitch), at, wpm, amp, 0, phase)...)
			return append(audio, make([]float32, int((0.5+30*morse.DitSeconds(wpm))*float64(at)))...)
		}
		result.sources = append(result.sources, s)
	}
	if selected > 0 || c.Intn(2) == 0 {
		flag("source", result.sources[selected].name)
	}
	path := filepath.Join(dir, "native")
	result.server = newPulseServer(c, path, result.sources)
	return result
}

func (r *pulseRun) start(c *vh.C, bin, dir string) {
	go r.server.serve()
	r.p = prog.Start(c, bin, dir, []string{"PULSE_SERVER=unix:" + filepath.Join(dir, "native"), "PULSE_COOKIE=" + filepath.Join(dir, "cookie")}, r.args...)
	c.Key(fmt.Sprint(r.args, r.wpm, r.want))
}

// settled waits until the condition holds; it gives up when nothing is written anymore for a long time.
func (r *pulseRun) settled(cond func() bool) bool {
	for attempt := 0; ; attempt++ {
		before := len(r.p.Output())
		if vh.WaitForD(func() bool { return cond() || !r.p.Running() }, vh.Patience) {
			return cond()
		}
		if len(r.p.Output()) == before && (r.server.complete() || r.server.lost() || attempt >= 3) {
			return cond()
		}
	}
}

func c36decode(c *vh.C, bin, dir string) { c36text(c, bin, dir, false) }
func c36preset(c *vh.C, bin, dir string) { c36text(c, bin, dir, true) }

func c36text(c *vh.C, bin, dir string, preset bool) {
	r := newPulseRun(c, dir, preset)
	defer r.server.close()
	r.start(c, bin, dir)
	defer r.p.Kill()
	ok := func() bool {
		out := strings.TrimRight(r.p.Output(), " ")
		if preset {
			return strings.TrimLeft(out, " ") == r.want
		}
		return strings.HasSuffix(out, " "+r.want)
	}
	if !r.settled(ok) {
		c.FailWith(r.detail(), "%v: %q at %.1f WPM is decoded to %q", r.args, r.want, r.wpm, r.p.Output())
		return
	}
	c.Count("texts decoded", 1)
	c.Sample(r.detail())
	if c.Intn(2) == 0 {
		time.Sleep(time.Duration(c.Intn(50)) * time.Millisecond)
	}
	r.p.End(c, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP, syscall.SIGQUIT}[c.Intn(4)], r.detail)
	if !ok() {
		c.FailWith(r.detail(), "text appears at the end of the program: %q", r.p.Output())
	}
}

var nextPort atomic.Int64

// freePort finds a port outside of the range of ephemeral ports.
func freePort() int {
	for {
		port := 12000 + (os.Getpid()*43+int(nextPort.Add(1)))%18000
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
		if err == nil {
			l.Close()
			return port
		}
	}
}

// c36scope: the scope of the program shows the audio blocks.
func c36scope(c *vh.C, bin, dir string) {
	r := newPulseRun(c, dir, false)
	defer r.server.close()
	address := fmt.Sprintf("127.0.0.1:%d", freePort())
	r.args = append(r.args, "--scope", "--scope-address="+address)
	w := watch.Scope(address, "audio")
	defer w.End()
	var done atomic.Bool
	r.server.sizes = 100 + c.Intn(400)
	r.server.repeat = func() bool { return !done.Load() }
	defer done.Store(true)
	r.start(c, bin, dir)
	defer r.p.Kill()

	judged, seen, loudest := 0, 0, 0.0
	segment, run := -1, 0
	raw, debounced, known := false, false, false
	for since := time.Now(); judged < 1500 || loudest < 0.8*r.magnitude*50; time.Sleep(20 * time.Millisecond) {
		_, frames := w.Take()
		for _, f := range frames {
			seen++
			c.Count("audio blocks on the scope", 1)
			magnitude, threshold := f.Values["magnitude"], f.Values["magnitude_threshold"]
			state, shown := f.Values["state"] > 0, f.Values["debounced"] > 0
			if math.Abs(threshold-50*r.threshold) > 0.001 {
				c.FailWith(r.detail(), "%v: the scope shows the threshold %v instead of %v", r.args, threshold, 50*r.threshold)
				return
			}
			if math.Abs(magnitude-threshold) > 0.001 && state != (magnitude > threshold) {
				c.FailWith(r.detail(), "%v: the scope shows %v", r.args, f.Values)
				return
			}
			loudest = max(loudest, magnitude)
			if f.Segment != segment {
				segment, run, known = f.Segment, 0, false
			}
			if run == 0 || state != raw {
				raw, run = state, 1
			} else {
				run++
			}
			if run >= r.debounce {
				debounced, known = raw, true
			}
			if !known {
				continue
			}
			judged++
			if shown != debounced {
				c.FailWith(r.detail(), "%v: the state is %v for %d blocks, it is shown as %v", r.args, raw, run, shown)
				return
			}
		}
		if !r.p.Running() {
			c.FailWith(r.detail(), "the program ended: %v", r.p.State)
			return
		}
		if time.Since(since) > 90*time.Second {
			switch {
			case seen == 0:
				c.FailWith(r.detail(), "the scope does not show any block")
			case judged >= 1500:
				c.FailWith(r.detail(), "%v: the loudest block that is shown has the magnitude %v, expected %v", r.args, loudest, 50*r.magnitude)
			default:
				c.Inconclusive("only %d blocks are judged", judged)
			}
			return
		}
	}
	if loudest > 1.25*50*r.magnitude {
		c.FailWith(r.detail(), "%v: the loudest block that is shown has the magnitude %v, expected %v", r.args, loudest, 50*r.magnitude)
	}
	c.Sample(map[string]any{"args": r.args, "blocks": seen, "judged states": judged, "loudest": loudest, "expected": 50 * r.magnitude})
	r.p.End(c, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP, syscall.SIGQUIT}[c.Intn(4)], r.detail)
}

// c36refuse: without a source the program ends with an error.
func c36refuse(c *vh.C, bin, dir string) {
	r := newPulseRun(c, dir, false)
	defer r.server.close()
	what := ""
	switch c.Intn(5) {
	case 0:
		what = "there is no such source"
		r.args = append(r.args, "--source=unknown")
	case 1:
		what = "the authentication is refused"
		r.server.refuse = proto.OpAuth
	case 2:
		what = "the stream is refused"
		r.server.refuse = proto.OpCreateRecordStream
	case 3:
		what = "the source is refused"
		r.server.refuse = proto.OpGetSourceInfo
	case 4:
		what = "there is no server"
		r.server.close()
	}
	r.start(c, bin, dir)
	defer r.p.Kill()
	if !vh.WaitForD(func() bool { return !r.p.Running() }, 30*time.Second) {
		c.FailWith(r.detail(), "the program does not end although %s", what)
		return
	}
	if r.p.State == nil {
		c.FailWith(r.detail(), "the program ends with success although %s", what)
	}
	c.Count(what, 1)
}

// c36end: a termination signal at any time.
func c36end(c *vh.C, bin, dir string) {
	r := newPulseRun(c, dir, false)
	defer r.server.close()
	if c.Intn(2) == 0 {
		r.server.limit = 1 + c.Intn(400000)
	}
	r.start(c, bin, dir)
	defer r.p.Kill()
	started := func() bool {
		for _, command := range r.server.history() {
			if strings.HasPrefix(command, "cork") {
				return true
			}
		}
		return false
	}
	if !r.settled(started) {
		c.FailWith(r.detail(), "the program does not record")
		return
	}
	time.Sleep(time.Duration(c.Intn(100)) * time.Millisecond)
	if c.Intn(2) == 0 && r.server.limit > 0 {
		vh.WaitForD(func() bool { return r.server.lost() || r.server.complete() }, time.Second)
	}
	if r.server.lost() {
		c.Count("ended after the server was lost", 1)
	}
	r.p.End(c, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP, syscall.SIGQUIT}[c.Intn(4)], r.detail)
}
