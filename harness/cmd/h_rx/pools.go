package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/ftl/sdrainer/dsp"
	"github.com/ftl/sdrainer/rx"

	"verif/vh"
)

type modelPeak struct {
	p     *dsp.Peak[float32, int]
	state string // unused, in use, used
	since time.Time
}

func c14(r *vh.Run) {
	r.Rule("random sequences of up to 300 operations on tables of 1 to 300 bins with any clock advance, every operation followed by a comparison of all bins with a model of the statement, and by a search for the next peak; distinct: operation sequence")
	r.Parallel(8, r.N(30000, 200000), func(i int) {
		r.Case(fmt.Sprintf("table/%d", i), func(c *vh.C) {
			size := 1 + c.Intn([]int{3, 12, 300}[c.Intn(3)])
			clock := newClock()
			table := rx.NewPeaksTable[float32, int](size, clock)
			model := []*modelPeak{}
			var ops []string
			overlap := func(m *modelPeak, from, to int) bool { return m.p.From <= to && from <= m.p.To }
			pick := func(states string) *modelPeak {
				var candidates []*modelPeak
				for _, m := range model {
					if strings.Contains(states, m.state+";") {
						candidates = append(candidates, m)
					}
				}
				if len(candidates) == 0 {
					return nil
				}
				sort.Slice(candidates, func(a, b int) bool { return candidates[a].p.From < candidates[b].p.From })
				return candidates[c.Intn(len(candidates))]
			}
			remove := func(f func(m *modelPeak) bool) {
				var rest []*modelPeak
				for _, m := range model {
					if !f(m) {
						rest = append(rest, m)
					}
				}
				model = rest
			}
			steps := 5 + c.Intn(c.N(120, 300))
			maxWidth := 1 + c.Intn(size)
			for step := 0; step < steps; step++ {
				switch k := c.Intn(20); {
				case k < 8: // put
					from := c.Intn(size)
					to := min(size-1, from+c.Intn(maxWidth))
					p := &dsp.Peak[float32, int]{From: from, To: to, SignalBin: from + c.Intn(to-from+1), SignalFrequency: c.Intn(1e6)}
					if k == 0 {
						ops = append(ops, fmt.Sprintf("force-put %d-%d", from, to))
						table.ForcePut(p)
						remove(func(m *modelPeak) bool { return overlap(m, from, to) })
						model = append(model, &modelPeak{p, "unused", clock.Now()})
						break
					}
					ops = append(ops, fmt.Sprintf("put %d-%d", from, to))
					table.Put(p)
					blocked := false
					for _, m := range model {
						blocked = blocked || overlap(m, from, to) && m.state != "unused"
					}
					if !blocked {
						remove(func(m *modelPeak) bool { return overlap(m, from, to) })
						model = append(model, &modelPeak{p, "unused", clock.Now()})
					}
				case k < 12:
					if m := pick("unused;used;in use;"); m != nil {
						ops = append(ops, fmt.Sprintf("activate %d-%d (%s)", m.p.From, m.p.To, m.state))
						table.Activate(m.p)
						m.state = "in use"
					}
				case k < 15:
					if m := pick("in use;used;unused;"); m != nil {
						ops = append(ops, fmt.Sprintf("deactivate %d-%d (%s)", m.p.From, m.p.To, m.state))
						table.Deactivate(m.p)
						if m.state == "in use" {
							m.state = "used"
						}
					}
				case k < 18:
					d := []time.Duration{0, time.Second, 30 * time.Second, 59 * time.Second, time.Minute, 2*time.Minute - 1, 2 * time.Minute, time.Hour}[c.Intn(8)]
					ops = append(ops, fmt.Sprint("clock +", d))
					clock.Add(d)
				case k < 19:
					ops = append(ops, "cleanup")
					table.Cleanup()
					remove(func(m *modelPeak) bool {
						return m.state != "in use" && clock.Now().Sub(m.since) >= 2*time.Minute
					})
				default:
					if c.Intn(6) == 0 {
						ops = append(ops, "reset")
						table.Reset()
						model = nil
					}
				}
				bins := make([]*dsp.Peak[float32, int], size)
				unused := map[*dsp.Peak[float32, int]]bool{}
				for _, m := range model {
					for b := m.p.From; b <= m.p.To; b++ {
						bins[b] = m.p
					}
					if m.state == "unused" {
						unused[m.p] = true
					}
				}
				for b := range bins {
					if got := table.Get(b); got != bins[b] {
						c.FailWith(ops, "bin %d of %d contains %v instead of %v after %v", b, size, got, bins[b], last(ops, 12))
						c.Abort()
					}
				}
				if table.Get(-1) != nil || table.Get(size) != nil {
					c.FailWith(ops, "there is a peak outside of the table")
				}
				for j := 0; j < 2; j++ {
					next := table.FindNext()
					if next == nil && len(unused) > 0 || next != nil && !unused[next] {
						c.FailWith(ops, "the next peak of %d bins is %v, but the unused peaks are %v, after %v", size, next, keys(unused), last(ops, 12))
						c.Abort()
					}
				}
			}
			c.Count("operations", len(ops))
			c.Key(fmt.Sprint(size, ops))
			c.Sample(map[string]any{"size": size, "operations": last(ops, 15)})
		})
	})
}

func keys[K comparable, V any](m map[K]V) []K {
	var result []K
	for k := range m {
		result = append(result, k)
	}
	return result
}

func last(s []string, n int) []string { return s[max(0, len(s)-n):] }

type nullReporter struct{ deactivated []string }

func (n *nullReporter) ListenerActivated(string, int) {}
func (n *nullReporter) ListenerDeactivated(l string, f int) {
	n.deactivated = append(n.deactivated, l)
}
func (n *nullReporter) CallsignDecoded(string, string, int, int, int) {}
func (n *nullReporter) CallsignSpotted(string, string, int)           {}
func (n *nullReporter) SpotTimeout(string, string, int)               {}

func c15(r *vh.Run) {
	r.Rule("random sequences of up to 200 bind, release (one or several at once, in any order, also of listeners that are not bound anymore) and reset operations on pools of 0 to 40 listeners, compared with a set model after every operation; distinct: operation sequence")
	provideData(refData{})
	r.Parallel(8, r.N(16000, 100000), func(i int) {
		r.Case(fmt.Sprintf("pool/%d", i), func(c *vh.C) {
			size := c.Intn([]int{3, 8, 41}[c.Intn(3)])
			clock := newClock()
			rep := &nullReporter{}
			created := 0
			pool := rx.NewListenerPool[float32, int](size, "rx", func(id string) *rx.Listener[float32, int] {
				created++
				return rx.NewListener[float32, int](id, nil, clock, rep, 48000, 512)
			})
			if pool.Size() != size {
				c.Failf("the size is %d instead of %d", pool.Size(), size)
			}
			var bound, gone []*rx.Listener[float32, int]
			everSeen := map[string]bool{}
			var ops []string
			fail := func(format string, args ...any) {
				c.FailWith(ops, format+fmt.Sprintf(" (size %d, after %v)", size, last(ops, 10)), args...)
				c.Abort()
			}
			isBound := func(id string) bool {
				for _, l := range bound {
					if l.ID() == id {
						return true
					}
				}
				return false
			}
			bias := 2 + c.Intn(10)
			for step := 0; step < 5+c.Intn(200); step++ {
				switch k := c.Intn(20); {
				case k < bias: // bind
					ops = append(ops, "bind")
					l, ok := pool.BindNext()
					if ok != (len(bound) < size) {
						fail("binding succeeds: %v with %d bound", ok, len(bound))
					}
					if !ok {
						break
					}
					for _, other := range bound {
						if other.ID() == l.ID() || other == l {
							fail("identifier %s is bound twice", l.ID())
						}
					}
					for i, other := range gone {
						if other == l {
							gone = append(gone[:i], gone[i+1:]...)
							break
						}
					}
					everSeen[l.ID()] = true
					if len(everSeen) > size {
						fail("%d different identifiers: %v", len(everSeen), keys(everSeen))
					}
					l.Attach(&dsp.Peak[float32, int]{From: step % 512, To: step % 512, SignalBin: step % 512, SignalFrequency: step})
					bound = append(bound, l)
				case k < 19: // release
					if len(gone) > 0 && c.Intn(6) == 0 {
						l := gone[c.Intn(len(gone))]
						if isBound(l.ID()) {
							break
						}
						ops = append(ops, fmt.Sprint("release again ", l.ID()))
						pool.Release(l)
						c.Count("releases of listeners that are not bound", 1)
						break
					}
					if len(bound) == 0 {
						break
					}
					n := 1
					if c.Intn(3) == 0 {
						n = 1 + c.Intn(len(bound))
					}
					c.Shuffle(len(bound), func(a, b int) { bound[a], bound[b] = bound[b], bound[a] })
					released := append([]*rx.Listener[float32, int](nil), bound[:n]...)
					bound = bound[n:]
					var ids []string
					for _, l := range released {
						l.Detach()
						ids = append(ids, l.ID())
					}
					gone = append(gone, released...)
					if l := gone[c.Intn(len(gone))]; c.Intn(8) == 0 && !isBound(l.ID()) {
						released = append(released, l)
						ids = append(ids, "again "+released[n].ID())
					}
					ops = append(ops, fmt.Sprint("release ", ids))
					pool.Release(released...)
				default:
					ops = append(ops, "reset")
					rep.deactivated = nil
					pool.Reset()
					for _, l := range bound {
						if l.Attached() {
							fail("listener %s is still attached after a reset", l.ID())
						}
					}
					if len(rep.deactivated) != len(bound) {
						fail("reset of %d listeners reports the deactivation of %v", len(bound), rep.deactivated)
					}
					gone = append(gone, bound...)
					bound = nil
				}
				if pool.Available() != (len(bound) < size) {
					fail("Available is %v with %d bound", pool.Available(), len(bound))
				}
				visited := map[*rx.Listener[float32, int]]int{}
				pool.ForEach(func(l *rx.Listener[float32, int]) { visited[l]++ })
				if len(visited) != len(bound) {
					fail("%d listeners are visited instead of %d", len(visited), len(bound))
				}
				for _, l := range bound {
					if visited[l] != 1 {
						fail("listener %s is visited %d times", l.ID(), visited[l])
					}
					if !l.Attached() {
						fail("listener %s was detached", l.ID())
					}
				}
				first, ok := pool.First()
				if ok != (len(bound) > 0) || ok && visited[first] == 0 {
					fail("the first of %d listeners is %v, %v", len(bound), first, ok)
				}
			}
			for _, l := range bound {
				l.Detach()
			}
			c.Count("operations", len(ops))
			c.Count("listeners created", created)
			c.Key(fmt.Sprint(size, ops))
			c.Sample(map[string]any{"size": size, "operations": last(ops, 15)})
		})
	})
}
