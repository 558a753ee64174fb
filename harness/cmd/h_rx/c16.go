package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/ftl/sdrainer/rx"

	"verif/vh"
)

const peakTimeout = 2 * time.Minute

// carriers in bins of their own.
func (b *band) addCarriers(c *vh.C, n, spacing int, minSNR, maxSNR float64) []int {
	var bins []int
	for tries := 0; len(bins) < n && tries < 10000; tries++ {
		bin := 2 + c.Intn(b.block-4)
		ok := true
		for _, o := range bins {
			ok = ok && absInt(o-bin) >= spacing
		}
		if !ok {
			continue
		}
		bins = append(bins, bin)
		b.stations = append(b.stations, newStation("", float64(bin-b.block/2)*float64(b.rate)/float64(b.block), b.amplitude(minSNR+c.Float64()*(maxSNR-minSNR)), 20, b.rate, 0))
	}
	return bins
}

func c16(r *vh.Run) {
	r.Rule("carriers (1 to 60): the clock advances by arbitrary steps between batches of 100 blocks, timeouts are set to arbitrary values and changed, the receiver is stopped and started again; after every batch the active listeners must be exactly those whose timeouts are not exceeded; stations that stop keying must be released after the silence timeout; released signals must not be attached within 2 minutes, and again afterwards; distinct: sequence of clock steps and settings")
	provideData(allData)
	r.Parallel(8, r.N(60, 1000), func(i int) {
		r.Case(fmt.Sprintf("carriers/%d", i), func(c *vh.C) { c16carriers(c, i) })
	})
	r.Parallel(8, r.N(24, 300), func(i int) {
		r.Case(fmt.Sprintf("keyed/%d", i), func(c *vh.C) { c16keyed(c) })
	})
}

func c16carriers(c *vh.C, i int) {
	g := newRig(c, rx.StrainMode, 48000, 512, 7000000+c.Intn(50000))
	b := newBand(48000, 512, 2e-3, c.Rand)
	// the demodulator must not see a carrier close to its threshold, which depends on the noise and on the carriers
	bins := b.addCarriers(c, 1+c.Intn([]int{5, 60}[i%2]), 4, []float64{32, 36}[i%2], []float64{40, 36}[i%2])
	silence, attachment := 20*time.Second, time.Minute
	set := func() {
		silence = time.Duration(1+c.Intn(90)) * time.Second
		attachment = time.Duration(1+c.Intn(120)) * time.Second
		g.rcv.SetSilenceTimeout(silence)
		g.rcv.SetAttachmentTimeout(attachment)
		g.rcv.CenterFrequency() // all settings are made now
	}
	set()
	var log []string
	log = append(log, fmt.Sprintf("carriers in bins %v, silence %v, attachment %v", bins, silence, attachment))
	fail := func(format string, args ...any) {
		c.FailWith(map[string]any{"log": log, "events": fmt.Sprintf("%+v", g.rec.all())}, format+fmt.Sprintf(" (%v)", last(log, 6)), args...)
		c.Abort()
	}
	g.start()
	firstOfRun := 0 // events before belong to an earlier run of the receiver
	attachedAt := map[int]time.Duration{}
	lastAttach := map[int]time.Duration{}
	batches := 40 + c.Intn(80)
	maxStep := []int{3, 20, 60}[c.Intn(3)]
	idle := 0
	for k := 0; k < batches; k++ {
		step := time.Duration(c.Intn(maxStep*1000)) * time.Millisecond
		if c.Intn(4) == 0 {
			step = 0
		}
		if c.Intn(3) == 0 { // exactly at or just above the limit of a listener
			for _, at := range attachedAt {
				now := g.clock.Now().Sub(g.rec.start)
				if d := at + min(silence, attachment) - now; d >= 0 {
					step = d + time.Duration(c.Intn(2))
				}
				break
			}
		}
		log = append(log, fmt.Sprint("+", step))
		g.clock.Add(step)
		if c.Intn(25) == 0 {
			set()
			log = append(log, fmt.Sprintf("silence %v, attachment %v", silence, attachment))
		}
		now := g.clock.Now().Sub(g.rec.start)
		before := len(g.rec.all())
		g.feed(b.next)
		events := g.rec.all()
		if _, err := activeListeners(events, 30); err != nil {
			fail("%v", err)
		}
		for _, e := range events[before:] {
			bin := -1
			for _, o := range bins {
				if absInt(g.binFreq(o)-e.Freq) <= 50 {
					bin = o
				}
			}
			if bin == -1 {
				fail("%+v, but there is no signal", e)
			}
			switch e.Kind {
			case "activated":
				if _, ok := attachedAt[bin]; ok {
					fail("the signal in bin %d is attached twice", bin)
				}
				if at, ok := lastAttach[bin]; ok && now-at < peakTimeout {
					fail("the signal in bin %d was attached at %v and again at %v", bin, at, now)
				}
				attachedAt[bin], lastAttach[bin] = now, now
				c.Count("attached", 1)
				idle = 0
			case "deactivated":
				if age := now - attachedAt[bin]; age <= silence && age <= attachment {
					fail("the listener in bin %d is released after %v", bin, age)
				}
				delete(attachedAt, bin)
				c.Count("released", 1)
			default:
				fail("%+v for a carrier", e)
			}
		}
		for bin, at := range attachedAt {
			if age := now - at; age > silence || age > attachment {
				fail("the listener in bin %d is still active after %v", bin, age)
			}
		}
		if c.Intn(40) == 0 {
			g.stop()
			log = append(log, "stop")
			active, err := activeListeners(g.rec.all(), 30)
			if err != nil {
				fail("%v", err)
			}
			if len(active) > 0 {
				fail("active listeners after the stop: %v", active)
			}
			clear(attachedAt)
			clear(lastAttach)
			g.start()
			firstOfRun = len(g.rec.all())
			c.Count("restarts", 1)
		}
		idle++
	}
	if i%6 == 0 && len(attachedAt)+len(lastAttach) > 0 {
		// when all entries are old enough, the signals are attached again
		g.clock.Add(peakTimeout + 2*time.Minute)
		events := len(g.rec.all())
		deadline := time.Now().Add(vh.Patience)
		again := false
		for !again && time.Now().Before(deadline) {
			time.Sleep(200 * time.Millisecond) // the cleanup takes place every second
			g.feed(b.next)
			for _, e := range g.rec.all()[events:] {
				again = again || e.Kind == "activated"
			}
		}
		if !again {
			fail("no signal is attached again after the entries are old enough")
		}
		c.Count("attached again", 1)
	}
	g.stop()
	_ = firstOfRun
	if active, err := activeListeners(g.rec.all(), 30); err != nil || len(active) > 0 {
		fail("active listeners after the stop: %v %v", active, err)
	}
	c.Key(strings.Join(log, " "))
	c.Sample(map[string]any{"log": last(log, 20), "events": len(g.rec.all())})
}

func c16keyed(c *vh.C) {
	g := newRig(c, rx.StrainMode, 48000, 512, 7000000+c.Intn(50000))
	b := newBand(48000, 512, 3e-3, c.Rand) // single noise peaks do not exceed the threshold
	silence := time.Duration(4+c.Intn(20)) * time.Second
	attachment := time.Duration(10+c.Intn(60)) * time.Second
	g.rcv.SetSilenceTimeout(silence)
	g.rcv.SetAttachmentTimeout(attachment)
	type source struct {
		s    *station
		bin  int
		ends time.Duration
	}
	var sources []*source
	for j := 0; j < 1+c.Intn(8); j++ {
		bin := 20 + 60*j + c.Intn(30)
		if bin > 500 {
			break
		}
		s := newStation("cq cq de dl1abc dl1abc k", float64(bin-256)*93.75, b.amplitude(40), 18+c.Float64()*8, 48000, c.Intn(48000))
		src := &source{s: s, bin: bin, ends: time.Hour}
		if c.Intn(3) > 0 {
			src.ends = time.Duration(5000+c.Intn(30000)) * time.Millisecond
			s.end = int(src.ends.Seconds() * 48000)
		}
		b.stations = append(b.stations, s)
		sources = append(sources, src)
	}
	g.start()
	slack := 2 * g.batchDuration()
	attached := map[int]time.Duration{}
	var log []string
	seen := 0
	for k := 0; k < 90; k++ {
		g.clock.Add(g.batchDuration())
		now := g.clock.Now().Sub(g.rec.start)
		g.feed(b.next)
		events := g.rec.all()
		for _, e := range events[seen:] {
			var src *source
			for _, o := range sources {
				if absInt(g.binFreq(o.bin)-e.Freq) <= 94 {
					src = o
				}
			}
			if src == nil {
				c.FailWith(fmt.Sprintf("%+v", events), "%+v, but there is no signal", e)
				c.Abort()
			}
			switch e.Kind {
			case "activated":
				attached[src.bin] = now
				c.Count("attached", 1)
			case "deactivated":
				at := attached[src.bin]
				delete(attached, src.bin)
				byAttachment := now-at > attachment
				bySilence := now-max(src.ends, at) > silence-slack && now-at > silence
				if !byAttachment && !bySilence {
					c.FailWith(fmt.Sprintf("%+v", events), "released %v after it was attached at %v, the station stops at %v, silence %v, attachment %v", now-at, at, src.ends, silence, attachment)
					c.Abort()
				}
				c.Count("released", 1)
				if !byAttachment {
					c.Count("released by silence", 1)
				}
			}
		}
		seen = len(events)
		for bin, at := range attached {
			var ends time.Duration
			for _, o := range sources {
				if o.bin == bin {
					ends = o.ends
				}
			}
			if now-at > attachment || now-max(ends, at) > silence+slack+g.batchDuration() {
				c.FailWith(fmt.Sprintf("%+v", events), "still active at %v, attached at %v, the station stops at %v, silence %v, attachment %v", now, at, ends, silence, attachment)
				c.Abort()
			}
		}
	}
	g.stop()
	if active, err := activeListeners(g.rec.all(), 30); err != nil || len(active) > 0 {
		c.FailWith(fmt.Sprintf("%+v", g.rec.all()), "active listeners after the stop: %v %v", active, err)
	}
	for _, o := range sources {
		log = append(log, fmt.Sprint(o.bin, o.ends))
	}
	c.Key(fmt.Sprint(silence, attachment, log))
}
