package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/ftl/sdrainer/rx"

	"verif/vh"
)

// capture replaces the standard output. Only one capture can be used at a time.
type capture struct {
	c      *vh.C
	old    *os.File
	w      *os.File
	closed chan struct{}
	marks  int

	mu  sync.Mutex
	buf bytes.Buffer
}

func newCapture(c *vh.C) *capture {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	result := &capture{c: c, old: os.Stdout, w: w, closed: make(chan struct{})}
	os.Stdout = w
	go func() {
		defer close(result.closed)
		buf := make([]byte, 4096)
		for {
			n, err := r.Read(buf)
			result.mu.Lock()
			result.buf.Write(buf[:n])
			result.mu.Unlock()
			if err != nil {
				r.Close()
				return
			}
		}
	}()
	return result
}

// take everything that was written up to now.
func (p *capture) take() string {
	p.marks++
	mark := fmt.Sprintf("\x00%d\x00", p.marks)
	if _, err := p.w.WriteString(mark); err != nil {
		panic(err)
	}
	var text string
	if !vh.WaitFor(func() bool {
		p.mu.Lock()
		defer p.mu.Unlock()
		var ok bool
		text, _, ok = strings.Cut(p.buf.String(), mark)
		if ok {
			p.buf.Next(len(text) + len(mark))
		}
		return ok
	}) {
		p.c.Inconclusive("the output could not be read")
		p.c.Abort()
	}
	return text
}

func (p *capture) close() {
	os.Stdout = p.old
	p.w.Close()
	<-p.closed
}

type vfoStation struct {
	freq  int
	words []string
	wpm   float64
	snr   float64
	live  *station
}

// judgeText checks that the text is what the station sends; the number of judged words is returned.
func judgeText(text string, words []string, skip int) (int, error) {
	got := strings.Fields(text)
	if len(got) > 0 && !strings.HasSuffix(text, " ") {
		got = got[:len(got)-1] // not complete
	}
	if len(got) <= skip {
		return 0, nil
	}
	got = got[skip:]
	// The decoder makes a mistake from time to time, because a dit lasts only a few blocks.
	sent := strings.Repeat(strings.Join(words, " ")+" ", len(got)/len(words)+3)
	if d := substringDistance(strings.Join(got, " "), sent); d > 1+len(strings.Join(got, " "))/30 {
		return 0, fmt.Errorf("%q, but the station sends %q", text, words)
	}
	return len(got), nil
}

// substringDistance is the smallest edit distance between s and any substring of text.
func substringDistance(s, text string) int {
	a, b := []rune(s), []rune(text)
	row := make([]int, len(b)+1)
	for i := range a {
		diagonal := row[0]
		row[0] = i + 1
		for j := range b {
			d := diagonal
			if a[i] != b[j] {
				d++
			}
			diagonal = row[j+1]
			row[j+1] = min(d, row[j]+1, row[j+1]+1)
		}
	}
	result := len(a)
	for _, d := range row {
		result = min(result, d)
	}
	return result
}

func c18(r *vh.Run) {
	r.Rule("sequences of VFO and center frequency changes, starts, stops and clock jumps with 2 to 5 stations in the spectrum; the standard output is judged after every step: on a station it shows the words of this station in order (after a run-in of 4 words, apart from single decoding mistakes), everywhere else and while the receiver is stopped nothing; the reported listener is always on the VFO frequency; distinct: sequence of steps")
	provideData(allData)
	for i := 0; i < r.N(32, 500); i++ {
		r.Case(fmt.Sprintf("vfo/%d", i), func(c *vh.C) { c18case(c) })
	}
}

func c18case(c *vh.C) {
	out := newCapture(c)
	defer out.close()
	const noise = 3e-3 // single noise peaks do not exceed the threshold
	formats := [][2]int{{48000, 512}, {96000, 1024}, {48000, 512}, {192000, 2048}}
	format := formats[c.Intn(3)]
	center := 7020000 + c.Intn(20000)
	g := newRig(c, rx.DecodeMode, format[0], format[1], center)
	center = g.center
	const span = 18000 // around the first center
	mid := center
	var stations []*vfoStation
	for n := 2 + c.Intn(4); len(stations) < n; {
		f := mid - span + c.Intn(2*span)
		ok := true
		for _, o := range stations {
			ok = ok && absInt(o.freq-f) >= 4000
		}
		if !ok {
			continue
		}
		s := &vfoStation{freq: f, wpm: 18 + c.Float64()*10, snr: 40 + c.Float64()*2}
		for len(s.words) < 4+c.Intn(3) {
			w := make([]byte, 3+c.Intn(4))
			for i := range w {
				w[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[c.Intn(36)]
			}
			s.words = append(s.words, string(w))
		}
		stations = append(stations, s)
	}
	var b *band
	build := func() { // new signals for the current format
		b = newBand(format[0], format[1], noise, c.Rand)
		for _, s := range stations {
			s.live = newStation(strings.Join(s.words, " "), float64(s.freq-center), b.amplitude(s.snr), s.wpm, format[0], c.Intn(format[0]))
			b.stations = append(b.stations, s.live)
		}
	}
	retune := func() {
		for _, s := range stations {
			s.live.tune(float64(s.freq-center), format[0])
		}
	}
	build()

	var log []string
	running, known, measured := false, false, false
	offset, tunedTo := 0, 0
	fail := func(f string, args ...any) {
		var desc []string
		for _, s := range stations {
			desc = append(desc, fmt.Sprintf("%d %.1f WPM %.1f dB %q", s.freq, s.wpm, s.snr, s.words))
		}
		c.FailWith(map[string]any{"steps": log, "stations": desc, "events": fmt.Sprintf("%+v", lastN(g.rec.all(), 10))}, f, args...)
		c.Abort()
	}
	// the station at the VFO, or nil if there is nothing; false: too close to a station to be sure
	tuned := func() (*vfoStation, bool) {
		bin := float64(format[0]) / float64(format[1])
		for _, s := range stations {
			d := float64(absInt(s.freq - center - offset))
			if d <= 0.2*bin {
				return s, true
			}
			if d < 3300 { // the edges of strong signals are wide
				return nil, false
			}
		}
		return nil, true
	}
	play := func(seconds float64) {
		n := int(seconds/g.batchDuration().Seconds()) + 1
		for i := 0; i < n; i++ {
			g.clock.Add(g.batchDuration())
			g.feed(b.next)
		}
		c.Count("seconds of signal", int(seconds))
	}
	move := func(f int) {
		offset, known, tunedTo = f-center, true, f
		c.Within("SetVFOOffset", func() { g.rcv.SetVFOOffset(offset) })
		log = append(log, fmt.Sprintf("VFO %d", f))
	}
	// check what is received at the VFO from now on
	check := func() {
		g.rcv.CenterFrequency() // all operations are executed
		if running && !measured {
			play(2) // the noise floor is measured first
			measured = true
		}
		out.take()
		s, sure := tuned()
		if !sure {
			return
		}
		if running {
			active, err := activeListeners(g.rec.all(), 1)
			switch {
			case err != nil:
				fail("%v", err)
			case known && len(active) != 1:
				fail("%d active listeners in decode mode", len(active))
			case !known && len(active) > 0:
				fail("a listener is active without a VFO frequency")
			}
			for id, e := range active {
				if absInt(e.Freq-tunedTo) > 1 {
					fail("listener %s is reported on %d, but the VFO was tuned to %d", id, e.Freq, tunedTo)
				}
				c.Count("listener frequencies", 1)
			}
		}
		if !running || !known {
			if running {
				play(2)
			} else {
				for i := 0; i < 20; i++ {
					g.rcv.IQData(format[0], b.next())
				}
			}
			if text := out.take(); text != "" {
				fail("%q appears, running: %t, VFO known: %t", text, running, known)
			}
			return
		}
		if s == nil {
			play(4)
			if text := out.take(); text != "" {
				fail("%q appears, but there is no signal at the VFO", text)
			}
			c.Count("quiet frequencies", 1)
			return
		}
		seconds := 16 + c.Float64()*8
		play(seconds)
		text := out.take()
		n, err := judgeText(text, s.words, 4)
		if err != nil {
			fail("%v", err)
		}
		period := float64(s.live.period) / float64(format[0])
		if expected := int(seconds/period*float64(len(s.words))) - 3; len(strings.Fields(text)) < expected {
			fail("only %q, but the station sends %q at %.1f WPM", text, s.words, s.wpm)
		}
		c.Count("words", n)
		c.Count("stations tuned", 1)
	}
	jitter := func() int { // within the bin
		return c.Intn(2*int(0.1*float64(format[0])/float64(format[1]))+1) - int(0.1*float64(format[0])/float64(format[1]))
	}
	target := func() int {
		if c.Intn(4) == 0 {
			return mid - span + c.Intn(2*span)
		}
		return stations[c.Intn(len(stations))].freq
	}

	if c.Intn(2) == 0 {
		move(target())
		check()
	}
	start := func() {
		g.start()
		running, measured = true, false
		tunedTo = center + offset
		log = append(log, fmt.Sprintf("start %v", format))
	}
	start()
	check()
	for k := 0; k < 8; k++ {
		switch c.Intn(8) {
		case 0: // the center is changed, and then the offset, so that the VFO stays or moves
			before := center
			center = mid - 3000 + c.Intn(6000)
			retune()
			g.center = center
			log = append(log, fmt.Sprintf("center %d", center))
			if c.Intn(2) == 0 {
				c.Within("SetCenterFrequency", func() { g.rcv.SetCenterFrequency(center) })
				move(target())
			} else {
				f := target()
				offset, known, tunedTo = f-center, true, before+f-center
				c.Within("SetVFOOffset", func() { g.rcv.SetVFOOffset(offset) })
				c.Within("SetCenterFrequency", func() { g.rcv.SetCenterFrequency(center) })
				log = append(log, fmt.Sprintf("VFO %d", f))
			}
		case 1:
			g.clock.Add(time.Duration(c.Intn(1200)) * time.Second)
			log = append(log, "clock")
		case 2:
			g.stop()
			running = false
			log = append(log, "stop")
			check()
			if c.Intn(2) == 0 {
				move(target())
			}
			if c.Intn(2) == 0 {
				format = formats[c.Intn(len(formats))]
				g.rate, g.block = format[0], format[1]
				build()
			}
			start()
		default:
			f := target()
			if c.Intn(2) == 0 {
				f += jitter()
			}
			move(f)
		}
		check()
	}
	g.stop()
	c.Key(strings.Join(log, " "))
	c.Sample(log)
}

func lastN[T any](list []T, n int) []T { return list[max(0, len(list)-n):] }
