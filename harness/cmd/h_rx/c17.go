package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/ftl/sdrainer/rx"

	"verif/vh"
)

func c17(r *vh.Run) {
	r.Rule("1 to 25 stations with different callsigns, speeds of 15-30 WPM, levels and frequencies (in and between bins, over the whole band), with noise and interfering carriers, for several sample rates and block sizes; all must be spotted with their own callsign within one bin, nothing else; distinct: set of stations")
	provideData(allData)
	r.Parallel(8, r.N(100, 600), func(i int) {
		r.Case(fmt.Sprintf("band/%d", i), func(c *vh.C) {
			rate, block := 48000, 512
			switch c.Intn(4) {
			case 0:
				rate, block = 96000, 1024
			}
			center := 7020000 + c.Intn(20000)
			g := newRig(c, rx.StrainMode, rate, block, center)
			b := newBand(rate, block, 3e-4*math.Pow(10, c.Float64()*0.5), c.Rand)
			n := 1 + c.Intn([]int{4, 10, 20}[i%2+block/1024])
			binWidth := float64(rate) / float64(block)
			used := map[string]*station{}
			var bins []int
			var desc []string
			for len(used) < n {
				bin := 3 + c.Intn(block-6)
				ok := true
				for _, o := range bins {
					ok = ok && absInt(o-bin) >= 30
				}
				call := strings.ToUpper(randomCall(c.Rand))
				if !ok || used[call] != nil || !allData.valid(call) || !callGrammar.MatchString(call) || strings.Contains(call, "/") {
					continue
				}
				bins = append(bins, bin)
				frac := 0.0
				if c.Intn(2) == 0 {
					frac = c.Float64()*0.5 - 0.25
				}
				lower := strings.ToLower(call)
				wpm := 15 + c.Float64()*13
				snr := 39 + c.Float64()*4
				s := newStation("cq cq de "+lower+" "+lower+" k", (float64(bin-block/2)+frac)*binWidth, b.amplitude(snr), wpm, rate, c.Intn(rate))
				s.call = call
				used[call] = s
				b.stations = append(b.stations, s)
				desc = append(desc, fmt.Sprintf("%s bin %d%+.2f %.1f dB %.1f WPM", call, bin, frac, snr, wpm))
			}
			if i%3 == 0 { // signals that are too weak to be found, and steady carriers in the edges
				for k := 0; k < 1+c.Intn(20); k++ {
					bin := 1 + c.Intn(block-2)
					apart := true
					for _, o := range bins {
						apart = apart && absInt(o-bin) >= 5
					}
					if !apart {
						continue
					}
					call := strings.ToLower(randomCall(c.Rand))
					b.stations = append(b.stations, newStation("cq de "+call+" "+call, float64(bin-block/2)*binWidth, b.amplitude(c.Float64()*8), 15+c.Float64()*15, rate, 0))
				}
				for k := 0; k < c.Intn(8); k++ {
					bin := 1 + c.Intn(65)
					if c.Intn(2) == 0 {
						bin = block - 1 - bin
					}
					ok := true
					for _, o := range bins {
						ok = ok && absInt(o-bin) >= 12
					}
					if ok {
						bins = append(bins, bin)
						desc = append(desc, fmt.Sprintf("carrier %d", bin))
						b.stations = append(b.stations, newStation("", float64(bin-block/2)*binWidth, b.amplitude(28+c.Float64()*8), 20, rate, 0))
					}
				}
				c.Count("bands with weak signals and carriers", 1)
			}
			g.start()
			missing := func() []string {
				var result []string
				spotted := map[string]bool{}
				for _, e := range g.rec.all() {
					if e.Kind == "spotted" {
						spotted[e.Call] = true
					}
				}
				for call := range used {
					if !spotted[call] {
						result = append(result, call)
					}
				}
				return result
			}
			ok := g.run(b, 140, func() bool { return len(missing()) == 0 })
			g.stop()
			events := g.rec.all()
			if !ok {
				c.FailWith(map[string]any{"stations": desc, "events": fmt.Sprintf("%+v", events)}, "%v not spotted within %v (stations %v)", missing(), g.clock.Now().Sub(g.rec.start), desc)
			}
			if _, err := activeListeners(events, 30); err != nil {
				c.FailWith(map[string]any{"stations": desc, "events": fmt.Sprintf("%+v", events)}, "%v", err)
			}
			spots := 0
			for _, e := range events {
				if e.Kind != "spotted" {
					continue
				}
				spots++
				s := used[e.Call]
				if s == nil {
					c.FailWith(map[string]any{"stations": desc, "events": fmt.Sprintf("%+v", events)}, "%s was spotted, but not transmitted (stations %v)", e.Call, desc)
				} else if d := math.Abs(float64(e.Freq-center) - s.offset); d > binWidth {
					c.FailWith(map[string]any{"stations": desc, "events": fmt.Sprintf("%+v", events)}, "%s was spotted on %d, which is %.0f Hz off, bins of %.2f Hz (stations %v)", e.Call, e.Freq, d, binWidth, desc)
				}
			}
			c.Count("stations", n)
			c.Count("spots", spots)
			c.Count("seconds of signal", int(g.clock.Now().Sub(g.rec.start).Seconds()))
			c.Key(fmt.Sprint(desc))
			c.Sample(map[string]any{"stations": desc, "seconds": g.clock.Now().Sub(g.rec.start).Seconds(), "spots": spots})
		})
	})
}

func absInt(i int) int { return max(i, -i) }
