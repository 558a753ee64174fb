package main

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"
	"github.com/ftl/sdrainer/tci"

	"verif/vh"
)

// c32 observes the TCI client with simulated devices.
func c32(r *vh.Run) {
	r.Rule("a case is a session of the real TCI process with a simulated TCI device: (reports) random events of the receiver are given to the process, the display of the device and the calls of the spotter are compared with a model; (stream) a random IQ stream, interleaved with messages of other TRX, VFOs and types, the scope frames are compared with a receiver that is fed only with the data of the configured TRX; (station) a keyed station, its callsign must be spotted and shown, its listener must be shown and released; (loss) the connection is lost at a random point, the reception and the commands must continue with the next connection; (close) closing at a random point; distinct: kinds and parameters of the sessions")
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		defer func(out *os.File) { os.Stdout = out }(os.Stdout)
		os.Stdout = null // the receiver prints the decoded text
	}
	provideData(allData)
	race := raceStage()
	var wg sync.WaitGroup
	run := func(kind string, workers, n int, f func(c *vh.C)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.Parallel(workers, n, func(i int) { r.Case(fmt.Sprintf("%s/%d", kind, i), f) })
		}()
	}
	if race {
		run("reports", 4, r.N(12, 100), c32reports)
		run("stream", 2, r.N(6, 60), c32stream)
		run("loss", 16, r.N(16, 160), c32loss)
		run("close", 8, r.N(60, 1000), c32close)
	} else {
		run("reports", 24, r.N(72, 1000), c32reports)
		run("stream", 3, r.N(60, 1000), c32stream)
		run("station", 2, r.N(16, 200), c32station)
		run("loss", 40, r.N(40, 600), c32loss)
		run("close", 24, r.N(240, 6000), c32close)
		run("start", 8, r.N(24, 400), c32start)
		run("late", 8, r.N(8, 64), c32late)
	}
	wg.Wait()
}

func raceStage() bool { return os.Getenv("VERIF_STAGE") == "race" }

// ---- spotter

type tciSpotCall struct {
	Call string
	Freq float64
	Msg  string
}

type tciSpotter struct {
	mu    sync.Mutex
	calls []tciSpotCall
	err   string
	delay time.Duration
	busy  atomic.Int32
}

func (s *tciSpotter) Spot(callsign string, frequency float64, msg string, timestamp time.Time) {
	if s.busy.Add(1) > 1 {
		s.fail("Spot is called concurrently")
	}
	defer s.busy.Add(-1)
	now := time.Now()
	if timestamp.Location() != time.UTC {
		s.fail(fmt.Sprintf("the timestamp %v is not in UTC", timestamp))
	}
	if d := now.Sub(timestamp); d < -time.Second || d > vh.Patience {
		s.fail(fmt.Sprintf("the timestamp %v is not the current time %v", timestamp, now))
	}
	if s.delay > 0 {
		time.Sleep(s.delay)
	}
	s.mu.Lock()
	s.calls = append(s.calls, tciSpotCall{callsign, frequency, msg})
	s.mu.Unlock()
}

func (s *tciSpotter) fail(msg string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.err == "" {
		s.err = msg
	}
}

func (s *tciSpotter) problem() string { s.mu.Lock(); defer s.mu.Unlock(); return s.err }

func (s *tciSpotter) all() []tciSpotCall {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]tciSpotCall(nil), s.calls...)
}

func newTCI(c *vh.C, d *tciDevice, trx int, mode rx.ReceiverMode, spotter tci.Spotter, reporter rx.Reporter[int]) *tci.Process {
	p, err := tci.New(d.address, trx, mode, spotter, reporter, c.Intn(2) == 0)
	if err != nil {
		c.Failf("cannot create the process for the host %q: %v", d.address, err)
		c.Abort()
	}
	return p
}

// closeTCI closes the process and checks that the stream is stopped.
func closeTCI(c *vh.C, p *tci.Process, t *tciConn, trx int) {
	c.Within("Close", p.Close)
	if t == nil {
		return
	}
	want := fmt.Sprintf("iq_stop:%d;", trx)
	c.Reach(func() bool { return t.has(want) }, func() any { return t.received() }, "the device did not receive %s after Close", want)
	all := t.received()
	if all[len(all)-1] != want {
		// a hanging command may be sent later, but the stream must not be started again
		for i := len(all) - 1; i >= 0 && all[i] != want; i-- {
			if strings.HasPrefix(all[i], "iq_start") {
				c.FailWith(all, "the stream is started after it is stopped")
			}
		}
	}
}

// ---- reports

func c32reports(c *vh.C) {
	trx := c.Intn(3)
	// the behaviour of the device
	policy := c.Intn(5)
	delays := c.Intn(30)
	reply := func(_ *tciConn, command string) (time.Duration, bool) {
		switch policy {
		case 1:
			return 0, !strings.HasPrefix(command, "spot")
		case 2:
			return time.Duration(delays) * time.Millisecond, true
		case 3:
			return time.Duration(40+delays) * time.Millisecond, true // around the timeout of the client
		case 4:
			return 0, false
		}
		return 0, true
	}
	d := newTCIDevice(c, greeting{24000, []string{fmt.Sprintf("dds:%d,7020000;", trx)}}.send, reply)
	defer d.close()
	var spotter *tciSpotter
	var p *tci.Process
	if c.Intn(5) > 0 {
		spotter = &tciSpotter{}
		if c.Intn(4) == 0 {
			spotter.delay = time.Duration(c.Intn(60)) * time.Millisecond
		}
		p = newTCI(c, d, trx, rx.StrainMode, spotter, nil)
	} else {
		p = newTCI(c, d, trx, rx.StrainMode, nil, nil)
	}
	defer c.Within("Close", p.Close)
	t := d.connected(c)

	want := map[string]tciSpot{}
	var calls []tciSpotCall
	var history []string
	detail := func() any {
		h := map[string]any{"events": history, "device": d.history(), "displayed": d.displayed(), "expected": want, "expected_spots": calls}
		if spotter != nil {
			h["spots"] = spotter.all()
		}
		return h
	}
	barriers := 0
	showL, showS := false, false
	quiet := func() {
		c.Reach(func() bool {
			return reflect.DeepEqual(d.displayed(), want) && (spotter == nil || len(spotter.all()) >= len(calls))
		}, detail, "the device does not show the expected spots")
		// nothing more follows: operations are executed one after the other
		barriers++
		marker := fmt.Sprintf("BARRIER%d", barriers)
		if spotter != nil {
			p.CallsignSpotted("0", marker, 7000000)
			calls = append(calls, tciSpotCall{Call: marker, Freq: 7000000})
			c.Reach(func() bool { return len(spotter.all()) >= len(calls) }, detail, "the spot %s is not forwarded", marker)
		}
		p.SpotTimeout("0", marker, 7000000)
		if vh.WaitForD(func() bool { return t.has("spot_delete:>" + marker + "<;") }, 3*time.Second) {
			c.Count("quiescent states", 1)
		}
		c.Reach(func() bool { return reflect.DeepEqual(d.displayed(), want) }, detail, "the device does not show the expected spots")
		if spotter != nil {
			got := spotter.all()
			if len(got) != len(calls) {
				c.FailWith(detail(), "the spotter was called %d times instead of %d times", len(got), len(calls))
				c.Abort()
			}
			for i := range got {
				if got[i].Call != calls[i].Call || got[i].Freq != calls[i].Freq {
					c.FailWith(detail(), "call %d of the spotter is %+v instead of %+v", i, got[i], calls[i])
					c.Abort()
				}
			}
			if e := spotter.problem(); e != "" {
				c.FailWith(detail(), "%s", e)
				c.Abort()
			}
		}
		if e := d.errors(); len(e) > 0 {
			c.FailWith(detail(), "the device received malformed commands: %q", e)
			c.Abort()
		}
	}
	foreign := map[string]bool{}
	if c.Intn(2) == 0 { // spots of other programs must survive
		d.mu.Lock()
		for _, name := range []string{"DL9XYZ", "W1AW", "OH8X"} {
			d.spots[name] = tciSpot{"cw", 7001000, "other"}
			want[name] = d.spots[name]
			foreign[name] = true
		}
		d.mu.Unlock()
	}

	ids := []string{"1", "2", "3", "01", "listener 7", "x-12"}[:2+c.Intn(4)]
	listeners := map[string]int{}
	type spotKey struct{ call string }
	spots := map[string]int{}
	p.SetShow(showL, showS)
	phases := 1 + c.Intn(4)
	for ph := 0; ph < phases; ph++ {
		if ph > 0 || c.Intn(2) == 0 {
			showL, showS = c.Intn(3) > 0, c.Intn(3) > 0
			p.SetShow(showL, showS)
		}
		history = append(history, fmt.Sprintf("show listeners %v, spots %v", showL, showS))
		for n := 1 + c.Intn(8); n > 0; n-- {
			id := ids[c.Intn(len(ids))]
			freq := 7000000 + c.Intn(40000)
			switch k := c.Intn(10); {
			case k < 3: // activate or deactivate
				if f, ok := listeners[id]; ok {
					history = append(history, fmt.Sprintf("deactivate %s %d", id, f))
					p.ListenerDeactivated(id, f)
					delete(listeners, id)
					if !foreign[id] {
						delete(want, id)
					}
				} else {
					history = append(history, fmt.Sprintf("activate %s %d", id, freq))
					p.ListenerActivated(id, freq)
					listeners[id] = freq
					if showL {
						want[id] = tciSpot{"cw", freq, "SDRainer"}
					}
				}
			case k < 4:
				p.CallsignDecoded(id, randomCall(c.Rand), freq, 1+c.Intn(20), c.Intn(5))
			case k < 8:
				call := []string{"DL1ABC", "W1AW", "OH2BH", "F/DL1ABC", "JA1XYZ", "4U1ITU"}[c.Intn(6)]
				history = append(history, fmt.Sprintf("spot %s %d", call, freq))
				p.CallsignSpotted(id, call, freq)
				spots[call] = freq
				calls = append(calls, tciSpotCall{Call: call, Freq: float64(freq)})
				if showS {
					want[">"+call+"<"] = tciSpot{"cw", freq, "SDRainer"}
				}
			default:
				list := keys(spots)
				if len(list) == 0 {
					continue
				}
				sort.Strings(list)
				call := list[c.Intn(len(list))]
				history = append(history, "timeout "+call)
				p.SpotTimeout(id, call, spots[call])
				delete(spots, call)
				delete(want, ">"+call+"<")
			}
			c.Count("reports", 1)
		}
		quiet()
	}
	closeTCI(c, p, t, trx)
	// nobody is blocked by a closed process
	c.Within("reports after Close", func() {
		for i := 0; i < 250; i++ {
			p.ListenerActivated("1", i)
			p.CallsignSpotted("1", "DL1ABC", i)
			p.SpotTimeout("1", "DL1ABC", i)
			p.ListenerDeactivated("1", i)
		}
	})
	c.Key(fmt.Sprintf("reports %d %v", policy, history))
	c.Sample(map[string]any{"trx": trx, "device_reply_policy": policy, "events": lastN(history, 12)})
}

// ---- stream

// frames records the content of all frames that do not depend on random decisions of the receiver.
type frames struct {
	mu       sync.Mutex
	mode     rx.ReceiverMode
	list     []string
	spectral atomic.Int64
	last     *scope.SpectralFrame
}

func (s *frames) Active() bool { return true }
func (s *frames) ShowTimeFrame(f *scope.TimeFrame) {
	if s.mode != rx.DecodeMode {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.list = append(s.list, fmt.Sprintf("%s %v", f.Stream, f.Values))
}
func (s *frames) ShowSpectralFrame(f *scope.SpectralFrame) {
	s.mu.Lock()
	defer s.mu.Unlock()
	markers := ""
	if s.mode == rx.DecodeMode {
		markers = fmt.Sprint(f.FrequencyMarkers)
	}
	s.list = append(s.list, fmt.Sprintf("spectrum %s %v %v", markers, f.MagnitudeMarkers, f.Values))
	s.last = f
	s.spectral.Add(1)
}
func (s *frames) take() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	result := s.list
	s.list = nil
	return result
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// tunings records the frequencies of the listeners.
type tunings struct {
	mu   sync.Mutex
	list []int
}

func (t *tunings) ListenerActivated(_ string, frequency int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.list = append(t.list, frequency)
}
func (t *tunings) ListenerDeactivated(string, int)               {}
func (t *tunings) CallsignDecoded(string, string, int, int, int) {}
func (t *tunings) CallsignSpotted(string, string, int)           {}
func (t *tunings) SpotTimeout(string, string, int)               {}
func (t *tunings) all() []int                                    { t.mu.Lock(); defer t.mu.Unlock(); return append([]int(nil), t.list...) }

func c32stream(c *vh.C) {
	trx := c.Intn(3)
	mode := []rx.ReceiverMode{rx.DecodeMode, rx.DecodeMode, rx.StrainMode}[c.Intn(3)]
	center := 7000000 + c.Intn(30000)
	vfo := c.Intn(40000) - 20000
	limit := []int{24000, 24000, 20000, 18000}[c.Intn(4)]
	ownDDS := func(f int) string { return fmt.Sprintf("dds:%d,%d;", trx, f) }
	ownIF := func(f int) string { return fmt.Sprintf("if:%d,0,%d;", trx, f) }
	foreignText := func() string {
		other := trx + 1 + c.Intn(3)
		if c.Intn(2) == 0 && trx > 0 {
			other = c.Intn(trx)
		}
		switch c.Intn(6) {
		case 0:
			return fmt.Sprintf("dds:%d,%d;", other, 14000000+c.Intn(30000))
		case 1:
			return fmt.Sprintf("if:%d,0,%d;", other, c.Intn(40000)-20000)
		case 2:
			return fmt.Sprintf("if:%d,1,%d;", trx, c.Intn(40000)-20000)
		case 3:
			return fmt.Sprintf("if:%d,1,%d;", other, c.Intn(40000)-20000)
		case 4:
			return fmt.Sprintf("modulation:%d,cw;", trx)
		default:
			return fmt.Sprintf("rx_smeter:%d,0,-%d;", trx, c.Intn(100))
		}
	}
	own := []string{ownDDS(center), ownIF(vfo)}
	if c.Intn(2) == 0 {
		own[0], own[1] = own[1], own[0]
	}
	var texts []string
	for i := range own {
		for n := c.Intn(4); n > 0; n-- {
			texts = append(texts, foreignText())
		}
		texts = append(texts, own[i])
	}
	for n := c.Intn(4); n > 0; n-- {
		texts = append(texts, foreignText())
	}
	d := newTCIDevice(c, greeting{limit, texts}.send, nil)
	defer d.close()

	scp, ref := &frames{mode: mode}, &frames{mode: mode}
	threshold, debounce := 8+c.Intn(20), 1+c.Intn(5)
	settingsBefore := c.Intn(2) == 0
	tuned := &tunings{}
	p := newTCI(c, d, trx, mode, nil, tuned)
	defer c.Within("Close", p.Close)
	set := func() {
		p.SetThreshold(threshold)
		p.SetSignalDebounce(debounce)
		p.SetScope(scp)
	}
	var t *tciConn
	if settingsBefore {
		set()
		t = d.connected(c)
	} else {
		t = d.connected(c)
		set()
	}

	const rate, block = 48000, 512
	rcv := rx.NewReceiver[float32, int]("", mode, rx.WallClock)
	defer rcv.Stop()
	rcv.SetCenterFrequency(center)
	rcv.SetVFOOffset(vfo)
	rcv.SetEdgeWidth((rate - 2*limit) / 2 * block / rate)
	rcv.Start(rate, block)
	rcv.SetPeakThreshold(float32(threshold))
	rcv.SetSignalDebounce(debounce)
	rcv.SetScope(ref)

	b := newBand(rate, block, 1e-3, c.Rand)
	offset := vfo
	b.stations = append(b.stations, newStation("cq cq de dl1abc dl1abc k ", float64(offset), b.amplitude(40), 25, rate, 0))
	for n := c.Intn(3); n > 0; n-- {
		b.stations = append(b.stations, newStation("", float64(c.Intn(40000)-20000), b.amplitude(10+c.Float64()*40), 25, rate, 0))
	}
	foreign := newBand(rate, block, 3e-3, c.Rand)
	foreign.stations = append(foreign.stations, newStation("", float64(c.Intn(40000)-20000), foreign.amplitude(45), 25, rate, 0))
	message := func(b *band) []float32 {
		var data []float32
		for i := 0; i < 4; i++ {
			data = append(data, b.next()...)
		}
		return data
	}
	var history []string
	batches := 2 + c.Intn(4)
	t.settled()
	listeners, expected := len(tuned.all()), 0
	for k := 0; k < batches; k++ {
		if k > 0 && c.Intn(2) == 0 { // own changes
			for n := 1 + c.Intn(2); n > 0; n-- {
				if c.Intn(2) == 0 {
					center = 7000000 + c.Intn(30000)
					history = append(history, ownDDS(center))
					t.text("%s", ownDDS(center))
					rcv.SetCenterFrequency(center)
				} else {
					vfo = c.Intn(40000) - 20000
					history = append(history, ownIF(vfo))
					t.text("%s", ownIF(vfo))
					rcv.SetVFOOffset(vfo)
					b.stations[0].tune(float64(vfo), rate)
					expected = center + vfo
				}
				t.settled()
				listeners = len(tuned.all())
			}
		}
		before := scp.spectral.Load()
		for i := 0; i < batch/4; i++ {
			for c.Intn(3) == 0 {
				switch c.Intn(4) {
				case 0:
					t.text("%s", foreignText())
				case 1:
					t.binary(trx, rate, 1, message(foreign)) // RX audio
				default:
					t.iq(trx+1+c.Intn(2), rate, message(foreign))
					if trx > 0 {
						t.iq(c.Intn(trx), rate, message(foreign))
					}
				}
				c.Count("foreign messages", 1)
			}
			data := message(b)
			t.iq(trx, rate, data)
			for j := 0; j < 4; j++ {
				rcv.IQData(rate, data[j*1024:(j+1)*1024])
			}
			c.Count("IQ messages", 1)
			if i%8 == 7 { // do not overrun the queues of the receivers
				time.Sleep(time.Millisecond)
			}
		}
		c.Reach(func() bool { return scp.spectral.Load() > before }, func() any { return history }, "%d blocks were sent, but are not processed completely (%d frames)", batch, before)
		c.Reach(func() bool { return ref.spectral.Load() > int64(k) }, nil, "the reference receiver does not work")
		got, want := scp.take(), ref.take()
		if len(got) != len(want) {
			c.FailWith(map[string]any{"history": history, "greeting": texts}, "%d frames instead of %d in batch %d", len(got), len(want), k)
			return
		}
		for i := range got {
			if got[i] != want[i] {
				c.FailWith(map[string]any{"history": history, "greeting": texts, "got": short(got[i]), "want": short(want[i])}, "frame %d of batch %d differs from the frame of a receiver that gets only the data of TRX %d", i, k, trx)
				return
			}
		}
		c.Count("frames compared", len(got))
		all := tuned.all()
		if mode == rx.DecodeMode && expected != 0 {
			c.Reach(func() bool { all := tuned.all(); return len(all) > 0 && all[len(all)-1] == expected }, func() any { return map[string]any{"history": history, "greeting": texts, "listeners": tuned.all()} }, "the listener is not at the VFO frequency %d", expected)
			c.Count("frequencies compared", 1)
		}
		for _, f := range all[min(listeners, len(all)):] {
			if mode == rx.StrainMode && (f < center-rate/2 || f > center+rate/2) {
				c.FailWith(map[string]any{"history": history, "greeting": texts, "listeners": all}, "a listener is at the frequency %d, but the center frequency of TRX %d is %d", f, trx, center)
			}
			c.Count("frequencies compared", 1)
		}
	}
	closeTCI(c, p, t, trx)
	// the closed process does not receive anymore
	before := scp.spectral.Load()
	for i := 0; i < batch/4; i++ {
		t.iq(trx, rate, message(b))
	}
	t.settled()
	if vh.WaitForD(func() bool { return scp.spectral.Load() != before }, 20*time.Millisecond) {
		c.Failf("data are processed after Close")
	}
	c.Key(fmt.Sprintf("stream %d %s %d %d %d %d %d %v", trx, mode, limit, threshold, debounce, batches, vfo, history))
	c.Sample(map[string]any{"trx": trx, "mode": mode, "greeting": texts, "changes": history, "batches": batches})
}

// ---- station

func c32station(c *vh.C) {
	trx := c.Intn(3)
	center := 7000000 + c.Intn(30000)
	d := newTCIDevice(c, greeting{24000, []string{fmt.Sprintf("dds:%d,%d;", trx, center), fmt.Sprintf("if:%d,0,0;", trx)}}.send, nil)
	defer d.close()
	const rate, block = 48000, 512
	showL, showS := c.Intn(2) == 0, c.Intn(2) == 0
	spotter := &tciSpotter{}
	rec := &rxRecorder{clock: rx.WallClock, start: time.Now()}
	p := newTCI(c, d, trx, rx.StrainMode, spotter, rec)
	defer c.Within("Close", p.Close)
	scp := &frameScope{}
	attachment := c.Intn(2) == 0 // which timeout releases the listener
	set := func() {
		p.SetShow(showL, showS)
		p.SetThreshold(15)
		if attachment {
			p.SetAttachmentTimeout(4 * time.Second)
			p.SetSilenceTimeout(2 * time.Hour)
		} else {
			p.SetAttachmentTimeout(2 * time.Hour)
			p.SetSilenceTimeout(4 * time.Second)
		}
		p.SetScope(scp)
	}
	var t *tciConn
	before := c.Intn(2) == 0
	if before {
		set()
		t = d.connected(c)
	} else {
		t = d.connected(c)
		set()
	}
	b := newBand(rate, block, 1e-3, c.Rand)
	call := []string{"DL1ABC", "K1A", "9A1AA", "EA8XYZ", "F5IN", "W7VP", "JA1QRS", "OE3GHI"}[c.Intn(8)]
	bin := 60 + c.Intn(392)
	if d := bin - 256; d > -4 && d < 4 {
		bin = 300
	}
	st := newStation(strings.ToLower(fmt.Sprintf("cq cq de %s %s %s k ", call, call, call)), float64(bin-256)*93.75, b.amplitude(41), 18+c.Float64()*8, rate, 0)
	b.stations = append(b.stations, st)
	freq := center + int(math.Round(float64(bin-256)*93.75))
	var slowest time.Duration // a busy machine processes the signal slower than the timeouts elapse
	feed := func() {
		start := time.Now()
		defer func() { slowest = max(slowest, time.Since(start)) }()
		before := scp.spectral.Load()
		for i := 0; i < batch/4; i++ {
			var data []float32
			for j := 0; j < 4; j++ {
				data = append(data, b.next()...)
			}
			t.iq(trx, rate, data)
		}
		c.Reach(func() bool { return scp.spectral.Load() > before }, nil, "the IQ data are not processed")
		c.Count("blocks", batch)
	}
	detail := func() any {
		return map[string]any{"events": rec.all(), "device": d.history(), "displayed": d.displayed(), "spots": spotter.all(), "call": call, "freq": freq, "show": []bool{showL, showS}, "attachment": attachment}
	}
	near := func(f int) bool { return absInt(f-freq) <= 100 }
	// the station is heard
	activated, spotted := "", false
	for n := 0; n < 60 && !spotted; n++ {
		feed()
		for _, e := range rec.all() {
			if e.Kind == "activated" && near(e.Freq) {
				activated = e.Listener
			}
			if e.Kind == "spotted" && e.Call == call {
				spotted = true
			}
		}
		if attachment && time.Since(rec.start) > 3*time.Second {
			break
		}
	}
	if !spotted {
		if attachment {
			c.Count("released before the callsign was spotted", 1)
			c32stationReleased(c, rec, d, showL, detail)
			return
		}
		if slowest > 500*time.Millisecond {
			c.Count("not judged: the machine was too busy", 1)
			return
		}
		c.FailWith(detail(), "the station is not spotted")
		return
	}
	c.Reach(func() bool { return len(spotter.all()) > 0 }, detail, "the spot is not forwarded")
	for _, s := range spotter.all() {
		if s.Call != call || !near(int(s.Freq)) {
			c.FailWith(detail(), "the spot %+v is not the station %s on %d", s, call, freq)
			return
		}
	}
	if e := spotter.problem(); e != "" {
		c.FailWith(detail(), "%s", e)
	}
	shown := func(name string) (tciSpot, bool) { s, ok := d.displayed()[name]; return s, ok }
	if showS {
		c.Reach(func() bool { s, ok := shown(">" + call + "<"); return ok && near(s.Freq) }, detail, "the spot is not shown")
	} else if _, ok := shown(">" + call + "<"); ok {
		c.FailWith(detail(), "the spot is shown")
	}
	released := func() bool {
		for _, e := range rec.all() {
			if e.Kind == "deactivated" && e.Listener == activated && near(e.Freq) {
				return true
			}
		}
		return false
	}
	if !released() {
		if s, ok := shown(activated); showL && !(ok && near(s.Freq)) && !released() {
			c.Reach(func() bool { s, ok := shown(activated); return ok && near(s.Freq) || released() }, detail, "the listener is not shown")
		} else if !showL && ok {
			c.FailWith(detail(), "the listener is shown")
		}
	}
	// the listener is released in time
	if !attachment {
		b.stations = nil
		b.hints = nil
	}
	deadline := time.Now().Add(12 * time.Second)
	for n := 0; !released(); n++ {
		if n > 20 && time.Now().After(deadline) {
			c.FailWith(detail(), "the listener is not released")
			return
		}
		feed()
		time.Sleep(20 * time.Millisecond)
	}
	if attachment {
		b.stations = nil
		b.hints = nil
	}
	c32stationReleased(c, rec, d, showL, detail)
	closeTCI(c, p, t, trx)
	c.Key(fmt.Sprintf("station %v %v %v %v %s %d", showL, showS, attachment, before, call, freq))
	c.Sample(map[string]any{"station": call, "frequency": freq, "spots": spotter.all(), "show_listeners": showL, "show_spots": showS})
}

// c32stationReleased waits until the device shows exactly the active listeners.
func c32stationReleased(c *vh.C, rec *rxRecorder, d *tciDevice, showL bool, detail func() any) {
	shown := func(name string) (tciSpot, bool) { s, ok := d.displayed()[name]; return s, ok }
	c.Reach(func() bool {
		// every listener that is shown must be active
		active, err := activeListeners(rec.all(), 30)
		if err != nil {
			return false
		}
		want := 0
		for id := range active {
			if _, ok := shown(id); ok {
				want++
			}
		}
		n := 0
		for name := range d.displayed() {
			if !strings.HasPrefix(name, ">") {
				n++
			}
		}
		if showL {
			return n == want && want == len(active)
		}
		return n == 0
	}, detail, "the device shows other listeners than the active ones")
}

// ---- connection loss

func c32loss(c *vh.C) {
	trx := c.Intn(3)
	at := []string{"idle", "spot", "delete", "stream", "iq_start", "iq_samplerate"}[c.Intn(6)]
	hard := c.Intn(2) == 0
	silent := c.Intn(3) == 0
	var armed atomic.Bool
	var dropped atomic.Int32
	trigger := map[string]string{"spot": "spot:", "delete": "spot_delete:", "iq_start": "iq_start:", "iq_samplerate": "iq_samplerate:"}[at]
	if strings.HasPrefix(at, "iq_") {
		armed.Store(true)
	}
	reply := func(t *tciConn, command string) (time.Duration, bool) {
		if trigger != "" && armed.Load() && strings.HasPrefix(command, trigger) && dropped.Load() == 0 {
			dropped.Add(1)
			t.drop(hard)
			return 0, false
		}
		return 0, !silent
	}
	center := 7000000
	d := newTCIDevice(c, greeting{24000, []string{fmt.Sprintf("dds:%d,%d;", trx, center), fmt.Sprintf("if:%d,0,0;", trx)}}.send, reply)
	defer d.close()
	spotter := &tciSpotter{}
	rec := &rxRecorder{clock: rx.WallClock, start: time.Now()}
	mode := []rx.ReceiverMode{rx.DecodeMode, rx.StrainMode}[c.Intn(2)]
	p := newTCI(c, d, trx, mode, spotter, rec)
	defer c.Within("Close", p.Close)
	scp := &frameScope{}
	p.SetScope(scp)
	p.SetShow(true, true)

	const rate, block = 48000, 512
	carrier := func(bin int) []float32 {
		data := make([]float32, 4096)
		for i := 0; i < 2048; i++ {
			sin, cos := math.Sincos(2 * math.Pi * float64(bin-256) * float64(i) / 512)
			data[2*i], data[2*i+1] = float32(0.01*cos), float32(0.01*sin)
		}
		return data
	}
	strongest := func() int {
		f := scp.lastFrame()
		if f == nil {
			return -1
		}
		best := 0
		for i, v := range f.Values {
			if v > f.Values[best] {
				best = i
			}
		}
		return best
	}
	var history []string
	detail := func() any {
		return map[string]any{"lost_at": at, "hard": hard, "silent": silent, "events": history, "device": d.history(), "strongest_bin": strongest(), "frames": scp.spectral.Load()}
	}
	receives := func(t *tciConn, what string) {
		bin := 80 + c.Intn(350)
		data := carrier(bin)
		done := make(chan struct{})
		defer close(done)
		go func() {
			for {
				select {
				case <-done:
					return
				default:
				}
				for i := 0; i < 100; i++ {
					if t.iq(trx, rate, data) != nil {
						return
					}
				}
				time.Sleep(4 * time.Millisecond)
			}
		}()
		c.Reach(func() bool { return strongest() == bin }, detail, "the reception does not work %s: the carrier at bin %d is not seen", what, bin)
	}
	spot := 0
	commands := func(t *tciConn, what string) {
		spot++
		call, freq := fmt.Sprintf("DL%dABC", spot), 7000000+c.Intn(40000)
		history = append(history, what+": spot "+call)
		c.Within("CallsignSpotted", func() { p.CallsignSpotted("1", call, freq) })
		c.Reach(func() bool { s, ok := d.displayed()[">"+call+"<"]; return ok && s.Freq == freq }, detail, "commands do not work %s: the spot of %s is not shown", what, call)
		c.Reach(func() bool {
			all := spotter.all()
			return len(all) > 0 && all[len(all)-1].Call == call
		}, detail, "the spot %s is not forwarded %s", call, what)
	}
	var first *tciConn
	select {
	case first = <-d.conns:
	case <-time.After(vh.Patience):
		c.FailWith(detail(), "the process does not connect")
		return
	}
	if !strings.HasPrefix(at, "iq_") {
		if d.connected(c) != first {
			c.FailWith(detail(), "there are several connections")
			c.Abort()
		}
		receives(first, "at first")
		commands(first, "at first")
		switch at {
		case "idle":
			first.drop(hard)
		case "spot":
			armed.Store(true)
			p.CallsignSpotted("1", "W1AW", 7012345)
		case "delete":
			armed.Store(true)
			p.SpotTimeout("1", "W1AW", 7012345)
		case "stream":
			for i := 0; i < c.Intn(100); i++ {
				first.iq(trx, rate, carrier(100))
			}
			first.drop(hard)
		}
	}
	c.Reach(func() bool { first.mu.Lock(); defer first.mu.Unlock(); return first.ended }, detail, "the connection is not lost")
	// while the connection is lost, nothing is blocked and no spot is lost
	events := 10 + c.Intn(150)
	spots := 0
	c.Within("reports while the connection is lost", func() {
		for i := 0; i < events; i++ {
			switch c.Intn(4) {
			case 0:
				p.ListenerActivated("1", i)
			case 1:
				p.ListenerDeactivated("1", i)
			case 2:
				p.SpotTimeout("1", "DL1ABC", i)
			default:
				p.CallsignSpotted("1", "OH2BH", i)
				spots++
			}
		}
	})
	c.Within("settings while the connection is lost", func() {
		p.SetThreshold(12)
		p.SetSilenceTimeout(time.Minute)
		p.SetAttachmentTimeout(time.Minute)
		p.SetSignalDebounce(2)
		p.SetScope(scp)
	})
	c.Reach(func() bool {
		got := 0
		for _, s := range spotter.all() {
			if s.Call == "OH2BH" {
				got++
			}
		}
		return got >= spots
	}, detail, "spots are not forwarded while the connection is lost")
	history = append(history, fmt.Sprintf("%d events while the connection is lost", events))
	// the next connection
	for len(d.started) > 0 {
		if d.connected(c) != first {
			c.FailWith(detail(), "there are several connections")
			c.Abort()
		}
	}
	var second *tciConn
	c.Reach(func() bool {
		select {
		case second = <-d.conns:
			return true
		default:
			return false
		}
	}, detail, "the process does not connect again")
	want := fmt.Sprintf("iq_start:%d;", trx)
	c.Reach(func() bool { return second.has(want) }, detail, "the stream is not started on the new connection")
	if !second.has("iq_samplerate:48000;") {
		c.FailWith(detail(), "the sample rate is not set on the new connection")
	}
	receives(second, "after the reconnect")
	commands(second, "after the reconnect")
	closeTCI(c, p, second, trx)
	c.Count("reconnects", 1)
	c.Key(fmt.Sprintf("loss %s %v %v %d %s", at, hard, silent, events, mode))
	c.Sample(map[string]any{"lost_at": at, "hard": hard, "device_silent": silent, "events_while_lost": events})
}

// ---- close

func c32close(c *vh.C) {
	trx := c.Intn(3)
	point := []string{"at once", "unreachable", "no websocket", "no greeting", "not ready", "connected", "commands", "streaming", "dropped", "random"}[c.Intn(10)]
	hold := make(chan struct{})
	released := false
	release := func() {
		if !released {
			released = true
			close(hold)
		}
	}
	defer release()
	texts := []string{fmt.Sprintf("dds:%d,7020000;", trx), fmt.Sprintf("if:%d,0,100;", trx)}
	greet := greeting{24000, texts}.send
	switch point {
	case "no greeting":
		greet = func(t *tciConn) { <-hold; greeting{24000, texts}.send(t) }
	case "not ready":
		greet = func(t *tciConn) {
			t.text("if_limits:-24000,24000;")
			for _, s := range texts {
				t.text("%s", s)
			}
			<-hold
			t.text("ready;")
		}
	case "random":
		delay := time.Duration(c.Intn(8000)) * time.Microsecond
		greet = func(t *tciConn) { time.Sleep(delay); greeting{24000, texts}.send(t) }
	}
	silent := c.Intn(3)
	delay := time.Duration(c.Intn(60)) * time.Millisecond
	reply := func(t *tciConn, command string) (time.Duration, bool) {
		switch silent {
		case 0:
			return 0, false
		case 1:
			return delay, true
		}
		return 0, true
	}
	l := listenLocal(c)
	var d *tciDevice
	switch point {
	case "unreachable":
		d = &tciDevice{address: l.Addr().String(), listener: l}
		l.Close()
	case "no websocket":
		d = &tciDevice{address: l.Addr().String(), listener: l}
		defer l.Close()
	default:
		d = serveTCI(l, greet, reply)
		defer d.close()
	}
	spotter := &tciSpotter{}
	scp := &frameScope{}
	mode := []rx.ReceiverMode{rx.DecodeMode, rx.StrainMode}[c.Intn(2)]
	p := newTCI(c, d, trx, mode, spotter, nil)
	p.SetShow(true, true)
	p.SetScope(scp)
	var t *tciConn
	conn := func() *tciConn {
		var t *tciConn
		c.Reach(func() bool {
			select {
			case t = <-d.conns:
				return true
			default:
				return false
			}
		}, nil, "the process does not connect")
		return t
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	stopped := false
	end := func() {
		if !stopped {
			stopped = true
			close(stop)
			c.Within("reports during Close", wg.Wait)
		}
	}
	expectStop := false
	switch point {
	case "at once", "unreachable", "no websocket":
		time.Sleep(time.Duration(c.Intn(3)) * time.Millisecond)
	case "no greeting", "not ready":
		t = conn()
		time.Sleep(time.Duration(c.Intn(4)) * time.Millisecond)
	case "connected":
		t = d.connected(c)
		expectStop = true
	case "commands":
		t = d.connected(c)
		expectStop = true
		rnd := c.Rand
		n := rnd.Intn(400)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				select {
				case <-stop:
					return
				default:
				}
				switch i % 5 {
				case 0:
					p.ListenerActivated("1", i)
				case 1, 2:
					p.CallsignSpotted("1", "DL1ABC", i)
				case 3:
					p.SpotTimeout("1", "DL1ABC", i)
				default:
					p.ListenerDeactivated("1", i)
				}
			}
		}()
		time.Sleep(time.Duration(c.Intn(20)) * time.Millisecond)
	case "streaming":
		t = d.connected(c)
		expectStop = true
		data := make([]float32, 4096)
		for i := range data {
			data[i] = float32(c.NormFloat64() * 1e-3)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				if i%20 == 3 {
					t.text("dds:%d,%d;", trx, 7000000+i)
				}
				if i%20 == 13 {
					t.text("if:%d,0,%d;", trx, i)
				}
				if t.iq(trx, 48000, data) != nil {
					return
				}
				time.Sleep(200 * time.Microsecond)
			}
		}()
		time.Sleep(time.Duration(c.Intn(30)) * time.Millisecond)
	case "dropped":
		t = d.connected(c)
		t.drop(c.Intn(2) == 0)
		p.CallsignSpotted("1", "DL1ABC", 7000000)
		time.Sleep(time.Duration(c.Intn(3)) * time.Millisecond)
	case "random":
		time.Sleep(time.Duration(c.Intn(12000)) * time.Microsecond)
	}
	times := 1 + c.Intn(3)
	together := c.Intn(2) == 0
	c.Within("Close at "+point, func() {
		if !together {
			for i := 0; i < times; i++ {
				p.Close()
			}
			return
		}
		var wg sync.WaitGroup
		for i := 0; i < times; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); p.Close() }()
		}
		wg.Wait()
	})
	if expectStop {
		want := fmt.Sprintf("iq_stop:%d;", trx)
		c.Reach(func() bool { return t.has(want) }, func() any { return t.received() }, "Close does not stop the IQ stream")
	}
	c.Within("reports after Close", func() {
		for i := 0; i < 250; i++ {
			p.ListenerActivated("1", i)
			p.CallsignSpotted("1", "DL1ABC", i)
			p.SpotTimeout("1", "DL1ABC", i)
			p.ListenerDeactivated("1", i)
		}
	})
	c.Within("settings after Close", func() {
		p.SetThreshold(12)
		p.SetSilenceTimeout(time.Minute)
		p.SetAttachmentTimeout(time.Minute)
		p.SetSignalDebounce(2)
		p.SetScope(scp)
	})
	end()
	// if the connection is established only now, the stream stays stopped
	release()
	if t == nil && d.conns != nil {
		select {
		case t = <-d.conns:
		case <-time.After(3 * time.Millisecond):
		}
	}
	if t != nil && point != "dropped" {
		time.Sleep(5 * time.Millisecond)
		running := func() bool {
			result := false
			for _, s := range t.received() {
				if strings.HasPrefix(s, "iq_start:") {
					result = true
				}
				if strings.HasPrefix(s, "iq_stop:") {
					result = false
				}
			}
			return result
		}
		if running() && !vh.WaitForD(func() bool { return !running() }, 10*time.Second) {
			c.FailWith(t.received(), "the IQ stream is not stopped after Close at %s", point)
		}
	}
	c.Count("closed at "+point, 1)
	c.Key(fmt.Sprintf("close %s %d %d %v %v", point, silent, times, together, mode))
	c.Sample(map[string]any{"close_at": point, "closes": times, "concurrently": together})
}

// c32late: the library connects again after the process is closed, the stream must stay stopped.
func c32late(c *vh.C) {
	trx := c.Intn(2)
	d := newTCIDevice(c, greeting{24000, nil}.send, nil)
	defer d.close()
	p := newTCI(c, d, trx, rx.StrainMode, nil, nil)
	t := d.connected(c)
	<-d.conns
	t.drop(c.Intn(2) == 0)
	time.Sleep(time.Duration(c.Intn(1000)) * time.Millisecond)
	c.Within("Close", p.Close)
	select {
	case t = <-d.conns:
		time.Sleep(1500 * time.Millisecond)
		for _, s := range t.received() {
			if strings.HasPrefix(s, "iq_start:") {
				c.FailWith(t.received(), "the IQ stream is started although the process is closed")
			}
		}
		c.Count("reconnects after close", 1)
	case <-time.After(14 * time.Second):
		c.Count("no reconnect after close", 1)
	}
	c.Key(fmt.Sprintf("late %d", trx))
}

// c32start: the device answers at once, while the machine is busy.
func c32start(c *vh.C) {
	trx := c.Intn(2)
	d := newTCIDevice(c, func(t *tciConn) {
		t.text("if_limits:-24000,24000;")
		t.text("ready;")
	}, nil)
	defer d.close()
	stop := make(chan struct{})
	defer close(stop)
	for i := 0; i < c.Intn(4); i++ {
		go func() {
			x := 1
			for {
				select {
				case <-stop:
					return
				default:
					for j := 0; j < 1000; j++ {
						x = x*1103515245 + 12345
					}
				}
			}
		}()
	}
	for i := 0; i < 100; i++ {
		p := newTCI(c, d, trx, rx.StrainMode, nil, nil)
		t := d.connected(c)
		closeTCI(c, p, t, trx)
		t.drop(false)
		<-d.conns
		c.Count("starts", 1)
	}
	c.Key(fmt.Sprintf("start %d %s", trx, c.Name))
}
