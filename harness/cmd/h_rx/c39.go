package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/ftl/sdrainer/rx"

	"verif/vh"
)

// c39: the standard output in strain mode.
func c39(r *vh.Run) {
	r.Rule("sequences of VFO changes, timeouts of all listeners, center frequency changes and restarts with 2 to 5 stations that are listened to in strain mode; the standard output is judged after every step: it shows the words of the station at the VFO if a listener is attached to it (after a run-in), nothing of any other station, and nothing without a listener at the VFO; distinct: sequence of steps with the identifiers of the listeners")
	provideData(allData)
	for i := 0; i < r.N(48, 700); i++ {
		r.Case(fmt.Sprintf("strain/%d", i), func(c *vh.C) { c39case(c) })
	}
}

type strainStation struct {
	bin   int // at the first center
	words []string
	live  *station
	desc  string
}

func c39case(c *vh.C) {
	out := newCapture(c)
	defer out.close()
	const rate, block = 48000, 512
	g := newRig(c, rx.StrainMode, rate, block, 7020000+375*c.Intn(50))
	mid := g.center
	b := newBand(rate, block, 3e-3, c.Rand)
	var stations []*strainStation
	for n := 2 + c.Intn(4); len(stations) < n; {
		bin := 90 + c.Intn(block-180)
		ok := true
		for _, o := range stations {
			ok = ok && absInt(o.bin-bin) >= 45
		}
		if !ok {
			if c.Intn(50) == 0 {
				break
			}
			continue
		}
		s := &strainStation{bin: bin}
		for len(s.words) < 4+c.Intn(3) {
			w := make([]byte, 3+c.Intn(4))
			for i := range w {
				w[i] = "abcdefghijklmnopqrstuvwxyz"[c.Intn(26)] // no callsigns
			}
			s.words = append(s.words, string(w))
		}
		wpm, snr := 18+c.Float64()*8, 40+c.Float64()*2
		s.live = newStation(strings.Join(s.words, " "), 0, b.amplitude(snr), wpm, rate, c.Intn(rate))
		s.desc = fmt.Sprintf("bin %d %.1f WPM %.1f dB %q", bin, wpm, snr, s.words)
		stations = append(stations, s)
		b.stations = append(b.stations, s.live)
	}
	binOf := func(s *strainStation) int { return s.bin - (g.center-mid)*block/rate }
	tune := func() {
		for _, s := range stations {
			s.live.tune(float64(binOf(s)-block/2)*rate/block, rate)
		}
	}
	tune()
	attachment, silence := time.Hour, time.Hour
	g.rcv.SetAttachmentTimeout(attachment)
	g.rcv.SetSilenceTimeout(silence)

	var log []string
	fail := func(f string, args ...any) {
		var desc []string
		for _, s := range stations {
			desc = append(desc, s.desc)
		}
		c.FailWith(map[string]any{"steps": log, "stations": desc, "events": fmt.Sprintf("%+v", lastN(g.rec.all(), 20))}, f, args...)
		c.Abort()
	}
	active := func() map[int]string { // bin -> identifier
		listeners, err := activeListeners(g.rec.all(), 30)
		if err != nil {
			fail("%v", err)
		}
		result := map[int]string{}
		for id, e := range listeners {
			for bin := 0; bin < block; bin++ {
				if absInt(g.binFreq(bin)-e.Freq) <= rate/block/2 {
					result[bin] = id
				}
			}
		}
		return result
	}
	vfo := -1           // the bin, at the current center
	printing := ""      // the listener at the VFO when it was tuned
	var since time.Time // when it was attached
	attached := map[string]time.Time{}
	update := func() {
		now := map[string]bool{}
		for _, id := range active() {
			now[id] = true
			if _, ok := attached[id]; !ok {
				attached[id] = g.clock.Now()
			}
		}
		for id := range attached {
			if !now[id] {
				delete(attached, id)
				if id == printing {
					printing = ""
				}
			}
		}
	}
	stationAt := func(bin int) *strainStation {
		for _, s := range stations {
			if binOf(s) == bin {
				return s
			}
		}
		return nil
	}
	move := func(bin int) {
		vfo = bin
		c.Within("SetVFOOffset", func() { g.rcv.SetVFOOffset(g.binFreq(bin) - g.center + c.Intn(41) - 20); g.rcv.CenterFrequency() })
		update()
		printing = active()[bin]
		since = attached[printing]
		log = append(log, fmt.Sprintf("VFO in bin %d, listener %q", bin, printing))
	}
	// play for some seconds, and judge the output
	play := func(seconds float64) {
		out.take()
		before := printing
		seen := vfo >= 0 && active()[vfo] != ""
		trained := g.clock.Now().Sub(since) > 12*time.Second
		start := g.clock.Now()
		for g.clock.Now().Sub(start).Seconds() < seconds {
			g.clock.Add(g.batchDuration())
			g.feed(b.next)
			update()
			seen = seen || vfo >= 0 && active()[vfo] != ""
		}
		text := out.take()
		c.Count("seconds of signal", int(seconds))
		s := stationAt(vfo)
		if strings.TrimSpace(text) != "" {
			if s == nil || !seen {
				fail("%q appears, but there is no listener at the VFO (active listeners by bin: %v)", text, active())
			}
			skip := 4
			if before != "" && trained {
				skip = 1
			}
			n, err := judgeText(text, s.words, skip)
			if err != nil {
				fail("%v", err)
			}
			c.Count("words", n)
		}
		if before != "" && before == printing {
			period := float64(s.live.period) / rate
			if expected := int(seconds/period*float64(len(s.words))) - 4; len(strings.Fields(text)) < expected {
				fail("only %q, but the station at the VFO, which is listened to, sends %q", text, s.words)
			}
			c.Count("stations followed", 1)
		} else if seen {
			c.Count("listeners that came or went", 1)
		} else {
			c.Count("silent steps", 1)
		}
	}

	g.start()
	play(float64(3 + 3*len(stations)))
	log = append(log, fmt.Sprintf("listeners by bin: %v", active()))
	for k := 0; k < 10; k++ {
		switch c.Intn(9) {
		case 0: // all listeners are released and attached again
			g.clock.Add(2 * time.Hour)
			log = append(log, "timeout")
			time.Sleep(1100 * time.Millisecond) // the cleanup of old signals
			play(float64(3 + 3*len(stations)))
			log = append(log, fmt.Sprintf("listeners by bin: %v", active()))
		case 1: // only released
			c.Within("SetAttachmentTimeout", func() { g.rcv.SetAttachmentTimeout(time.Second); g.rcv.CenterFrequency() })
			g.clock.Add(2 * time.Second)
			log = append(log, "short timeout")
			play(2)
			c.Within("SetAttachmentTimeout", func() { g.rcv.SetAttachmentTimeout(attachment); g.rcv.CenterFrequency() })
		case 2:
			g.center = mid + 375*(c.Intn(17)-8)
			log = append(log, fmt.Sprintf("center %d", g.center))
			c.Within("SetCenterFrequency", func() { g.rcv.SetCenterFrequency(g.center); g.rcv.CenterFrequency() })
			tune()
			update()
			play(float64(3 + 3*len(stations)))
			log = append(log, fmt.Sprintf("listeners by bin: %v", active()))
		case 3:
			g.stop()
			update()
			if c.Intn(2) == 0 {
				g.start()
			} else {
				bin := binOf(stations[c.Intn(len(stations))])
				move(bin)
				g.start()
			}
			g.rcv.CenterFrequency()
			update()
			log = append(log, "restart")
			play(float64(3 + 3*len(stations)))
			log = append(log, fmt.Sprintf("listeners by bin: %v", active()))
		case 4:
			bin := 60 + c.Intn(block-120)
			for _, s := range stations {
				if absInt(binOf(s)-bin) < 25 {
					bin = binOf(s)
				}
			}
			move(bin)
			play(4)
		default:
			// a station that is listened to
			bins := []int{}
			for _, s := range stations {
				if active()[binOf(s)] != "" {
					bins = append(bins, binOf(s))
				}
			}
			if len(bins) == 0 {
				play(3)
				continue
			}
			move(bins[c.Intn(len(bins))])
			play(10 + 8*c.Float64())
		}
	}
	g.stop()
	c.Key(strings.Join(log, " "))
	c.Sample(log)
}
