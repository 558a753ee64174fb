package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/ftl/localcopy"
	"github.com/ftl/sdrainer/dsp"
	"github.com/ftl/sdrainer/rx"

	"verif/morse"
	"verif/vh"
)

// fakeClock is moved by the harness.
type fakeClock struct {
	mu  sync.Mutex
	now time.Time
}

func newClock() *fakeClock {
	return &fakeClock{now: time.Date(2024, 2, 29, 23, 59, 30, 0, time.UTC)}
}

func (c *fakeClock) Now() time.Time { c.mu.Lock(); defer c.mu.Unlock(); return c.now }
func (c *fakeClock) Add(d time.Duration) {
	c.mu.Lock()
	c.now = c.now.Add(d)
	c.mu.Unlock()
}

// event of a callsign reporter.
type event struct {
	Kind   string // decoded, spotted, timeout, mark
	Call   string
	Count  int
	Weight int
}

func (e event) String() string {
	if e.Kind == "decoded" {
		return fmt.Sprintf("decoded %s %d/%d", e.Call, e.Count, e.Weight)
	}
	return e.Kind + " " + e.Call
}

// recorder is a callsign reporter.
type recorder struct {
	mu     sync.Mutex
	events []event
}

func (r *recorder) add(e event) { r.mu.Lock(); r.events = append(r.events, e); r.mu.Unlock() }
func (r *recorder) CallsignDecoded(call string, count int, weight int) {
	r.add(event{"decoded", call, count, weight})
}
func (r *recorder) CallsignSpotted(call string) { r.add(event{Kind: "spotted", Call: call}) }
func (r *recorder) SpotTimeout(call string)     { r.add(event{Kind: "timeout", Call: call}) }
func (r *recorder) all() []event {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]event(nil), r.events...)
}
func (r *recorder) has(kind, call string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, e := range r.events {
		if e.Kind == kind && e.Call == call {
			return true
		}
	}
	return false
}
func (r *recorder) count(kind, call string) int {
	n := 0
	for _, e := range r.all() {
		if e.Kind == kind && e.Call == call {
			n++
		}
	}
	return n
}

// ---- reference data

var (
	ctyPrefixes = []string{"DL", "DK", "DM", "K", "W", "N", "AA", "EA", "EA8", "9A", "F", "G", "M", "2E", "JA", "OE", "HB", "HB0", "3DA", "4X", "S5", "VK", "X5", "TU"}
	ctyExact    = []string{"QQ1ABC", "TA7XX"} // valid only as a whole
	scpCalls    = []string{"DL1ABC", "K1A", "9A1AA", "EA8XYZ", "F5IN", "QQ1ABC", "S50A", "QZ1QZ"}
)

func ctyDat() string {
	var b strings.Builder
	for i, p := range ctyPrefixes {
		fmt.Fprintf(&b, "Country %d:               15:  28:  EU:   41.90:   -12.43:    -1.0:  %s:\n    %s", i, p, p)
		if i == 0 {
			for _, e := range ctyExact {
				fmt.Fprintf(&b, ",\n    =%s", e)
			}
		}
		b.WriteString(";\n")
	}
	return b.String()
}

func scpDat() string { return "# comment\n" + strings.Join(scpCalls, "\n") + "\n" }

type refData struct {
	dxcc, scp bool // available
}

var allData = refData{true, true}

func (d refData) valid(call string) bool {
	if !d.dxcc {
		return true
	}
	for _, e := range ctyExact {
		if call == e {
			return true
		}
	}
	for _, p := range ctyPrefixes {
		if strings.HasPrefix(call, p) {
			return true
		}
	}
	return false
}

func (d refData) weight(call string) int {
	if d.scp {
		for _, c := range scpCalls {
			if c == call {
				return 1
			}
		}
	}
	return 0
}

// provideData makes the valid reference data available.
func provideData(d refData) {
	localcopy.SetUpdate(nil)
	localcopy.SetOpen(func(name string) (io.ReadCloser, error) {
		switch {
		case strings.HasPrefix(strings.ToLower(name), "cty") && d.dxcc:
			return io.NopCloser(strings.NewReader(ctyDat())), nil
		case strings.HasPrefix(strings.ToUpper(name), "MASTER") && d.scp:
			return io.NopCloser(strings.NewReader(scpDat())), nil
		}
		return nil, errors.New("not available")
	})
}

// ---- the model: written from the statement

// callGrammar is the form of a callsign: optional prefix, one or two characters (at least one letter), a digit, anything, a letter
var callGrammar = regexp.MustCompile(`^([A-Z0-9]+/)?([A-Z]|[A-Z][A-Z]|[0-9][A-Z]|[0-9][A-Z][A-Z])[0-9][A-Z0-9]*[A-Z]$`)

type textModel struct {
	data     refData
	counts   map[string]int
	last     string
	tail     string // since the last space
	spaced   bool   // there was a space before the tail
	done     bool   // the tail was counted already
	expected []expectation
}

// expectation is one event; several calls may be allowed.
type expectation struct {
	event
	anyOf []string
	tie   bool
}

func newModel(data refData) *textModel {
	return &textModel{data: data, counts: map[string]int{}}
}

func (m *textModel) occurrence(call string) []string {
	if strings.HasPrefix(call, "TU5NN") || !callGrammar.MatchString(call) || !m.data.valid(call) {
		return nil
	}
	m.counts[call]++
	weight := m.data.weight(call)
	m.expected = append(m.expected, expectation{event: event{"decoded", call, m.counts[call], weight}})
	best, calls := 2, []string(nil)
	for c, n := range m.counts {
		n += m.data.weight(c)
		if n > best {
			best, calls = n, nil
		}
		if n == best && n > 2 {
			calls = append(calls, c)
		}
	}
	if calls != nil {
		m.expected = append(m.expected, expectation{event: event{Kind: "spotted"}, anyOf: calls})
	}
	return calls
}

func (m *textModel) write(text string) {
	for _, r := range text {
		if r == ' ' {
			m.pending()
			m.tail, m.spaced, m.done = "", true, false
		} else {
			m.tail += string(r)
		}
	}
}

func (m *textModel) pending() {
	if m.spaced && !m.done {
		m.occurrence(strings.ToUpper(m.tail))
	}
}

// pause is a timeout check more than 5 s after the last text.
func (m *textModel) pause() {
	call := strings.ToUpper(m.tail)
	if m.spaced && !m.done && callGrammar.MatchString(call) {
		m.occurrence(call)
		m.done = true
	}
}

// compare the observed events with the expected ones. With prefix, the observation may end early.
func compare(got []event, want []expectation, prefix bool) string {
	last := ""
	i := 0
	for _, w := range want {
		if i >= len(got) && prefix {
			return ""
		}
		if w.Kind == "spotted" {
			// the timeout of the previous spot comes first, if the spot changes
			var timeout *event
			if i < len(got) && got[i].Kind == "timeout" {
				timeout = &got[i]
				i++
				if i >= len(got) && prefix {
					return ""
				}
			}
			if i >= len(got) || got[i].Kind != "spotted" {
				return fmt.Sprintf("event %d should be the spot of %v", i, w.anyOf)
			}
			ok := false
			for _, c := range w.anyOf {
				ok = ok || c == got[i].Call
			}
			if !ok {
				return fmt.Sprintf("event %d is %v, but the highest weighted count is that of %v", i, got[i], w.anyOf)
			}
			changed := last != "" && last != got[i].Call
			if changed != (timeout != nil) {
				return fmt.Sprintf("event %d is %v after the spot of %q, timeout reported: %v", i, got[i], last, timeout != nil)
			}
			if timeout != nil && timeout.Call != last {
				return fmt.Sprintf("%v, but the last spot is %s", *timeout, last)
			}
			last = got[i].Call
			i++
			continue
		}
		if i >= len(got) {
			return fmt.Sprintf("missing event: %v", w.event)
		}
		if got[i] != w.event {
			return fmt.Sprintf("event %d is %v instead of %v", i, got[i], w.event)
		}
		i++
	}
	if i < len(got) {
		return fmt.Sprintf("unexpected event: %v", got[i])
	}
	return ""
}

// ---- text generation

var otherWords = []string{"cq", "cq", "de", "test", "tu", "5nn", "599", "ur", "rst", "73", "k", "kn", "agn", "qrl?", "r", "ee", "paris", "e", "t", "73/", "cq/", "1", "01",
	"tu5nn", "tu5nnk", "tu5nna", "f/tu5nnk", "15nn", "~", "=", "?", "ä", "§", "¦", "¦¦", "dl", "dl1", "1a", "a1", "k1", "5nna5", "nr", "123", "0", "verylongwordthatisnocallsign", "/", "dl1/", "abc/"}

func randomCall(rnd *rand.Rand) string {
	letters := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + rnd.Intn(26))
		}
		return string(b)
	}
	if rnd.Intn(4) == 0 {
		return strings.ToLower(scpCalls[rnd.Intn(len(scpCalls))])
	}
	prefix := []string{"dl", "k", "w", "aa", "ea8", "9a", "2e", "ja", "oe", "3da", "x5", "qq", "q", "7q", "tu", "ta", "hb0"}[rnd.Intn(17)]
	call := prefix
	if last := prefix[len(prefix)-1]; last < '0' || last > '9' {
		call += string(rune('0' + rnd.Intn(10)))
	}
	if rnd.Intn(6) == 0 {
		call += string(rune('0' + rnd.Intn(10)))
	}
	call += letters(1 + rnd.Intn(3))
	if rnd.Intn(8) == 0 && len(call) < 7 {
		call = []string{"f", "g", "m", "q", "9"}[rnd.Intn(5)] + "/" + call
	}
	return call
}

func randomWords(rnd *rand.Rand, n int) []string {
	pool := make([]string, 1+rnd.Intn(4))
	for i := range pool {
		pool[i] = randomCall(rnd)
	}
	words := []string{[]string{"cq", "dl1abc", "", "e"}[rnd.Intn(4)]}
	for len(words) < n {
		if rnd.Intn(5) < 3 {
			words = append(words, pool[rnd.Intn(len(pool))])
		} else {
			words = append(words, otherWords[rnd.Intn(len(otherWords))])
		}
	}
	return words
}

const sentinel = "x5zzzz" // longer than the random callsigns

func segments(rnd *rand.Rand, text string) []string {
	mode := rnd.Intn(3)
	var result []string
	runes := []rune(text)
	for len(runes) > 0 {
		n := 1
		switch mode {
		case 1:
			n = 1 + rnd.Intn(6)
		case 2:
			n = 1 + rnd.Intn(60)
		}
		n = min(n, len(runes))
		result = append(result, string(runes[:n]))
		runes = runes[n:]
	}
	return result
}

func c11(r *vh.Run) {
	r.Rule("texts of up to 120 words from a few callsigns per text (with valid and invalid prefixes, with and without supercheck entry, up to nine characters) and other words including false positives, written character by character or in chunks; the sequence of reports must be exactly the one of the model; distinct: text")
	provideData(allData)
	r.Parallel(8, r.N(8000, 120000), func(i int) {
		r.Case(fmt.Sprintf("text/%d", i), func(c *vh.C) {
			words := randomWords(c.Rand, 2+c.Intn(120))
			text := strings.Join(words, " ")
			if c.Intn(3) == 0 {
				text = strings.ReplaceAll(text, " ", strings.Repeat(" ", 1+c.Intn(3)))
			}
			runText(c, allData, text)
		})
	})
	// longer histories: many repetitions of few callsigns, the spot changes
	r.Parallel(8, r.N(300, 5000), func(i int) {
		r.Case(fmt.Sprintf("contest/%d", i), func(c *vh.C) {
			a, b := randomCall(c.Rand), randomCall(c.Rand)
			var words = []string{"cq"}
			for j := 0; j < 300; j++ {
				switch c.Intn(4) {
				case 0:
					words = append(words, a)
				case 1:
					words = append(words, b)
				case 2:
					words = append(words, randomCall(c.Rand))
				default:
					words = append(words, otherWords[c.Intn(len(otherWords))])
				}
			}
			runText(c, allData, strings.Join(words, " "))
		})
	})
}

type discard struct {
	mu sync.Mutex
	n  int
}

func (d *discard) Write(p []byte) (int, error) {
	d.mu.Lock()
	d.n += len(p)
	d.mu.Unlock()
	return len(p), nil
}

// writeOnce writes the text and uses the buffer for something else afterwards, as every io.Writer must allow.
func writeOnce(w io.Writer, text string) (int, error) {
	buffer := []byte(text)
	n, err := w.Write(buffer)
	for i := range buffer {
		buffer[i] = '?'
	}
	return n, err
}

func runText(c *vh.C, data refData, text string) {
	model := newModel(data)
	rec := &recorder{}
	out := &discard{}
	p := rx.NewTextProcessor(out, newClock(), rec)
	c.Within("the text processor", func() {
		p.Start()
		full := text + " " + sentinel + " k "
		total := 0
		for _, s := range segments(c.Rand, full) {
			n, err := writeOnce(p, s)
			if n != len(s) || err != nil {
				c.Failf("Write of %d bytes returns %d, %v", len(s), n, err)
			}
			total += len(s)
		}
		model.write(full)
		ended := vh.WaitFor(func() bool { return rec.has("decoded", strings.ToUpper(sentinel)) })
		p.Stop()
		if !ended {
			c.FailWith(map[string]any{"text": full, "events": fmt.Sprint(rec.all())}, "the last callsign of the text was not counted")
			return
		}
		if out.n != total {
			c.Failf("%d of %d bytes were written to the output", out.n, total)
		}
	})
	got := rec.all()
	c.Count("events", len(got))
	c.Count("callsign occurrences", len(model.expected))
	c.Key(text)
	c.Sample(map[string]any{"text": text, "events": fmt.Sprint(got)})
	if msg := compare(got, model.expected, false); msg != "" {
		c.FailWith(map[string]any{"text": text, "events": fmt.Sprint(got)}, "%s (text %.300q)", msg, text)
	}
}

// ---- C13

func c13(r *vh.Run) {
	r.Rule("texts with pauses, timeout checks and restarts at random points, written character by character or in chunks; the sequence of reports must be that of a model of the statement, after a restart that of the new text alone; listeners that are attached to one signal after the other, the text must be that of a new listener; distinct: history")
	provideData(allData)
	r.Parallel(8, r.N(16000, 100000), func(i int) {
		r.Case(fmt.Sprintf("history/%d", i), func(c *vh.C) {
			clock := newClock()
			rec := &recorder{}
			p := rx.NewTextProcessor(&discard{}, clock, rec)
			var history []string
			c.Within("the text processor", func() {
				p.Start()
				for session := 0; session < 1+c.Intn(4); session++ {
					if session > 0 || c.Intn(2) == 0 {
						clock.Add(time.Duration(c.Intn(3)) * time.Second)
						p.Restart()
						history = append(history, "restart")
						if lw := p.LastWrite(); !lw.Equal(clock.Now()) {
							c.Failf("LastWrite is %v after a restart at %v", lw, clock.Now())
						}
					}
					lastWrite := clock.Now()
					rec.add(event{Kind: "mark"})
					start := len(rec.all())
					model := newModel(allData)
					words := randomWords(c.Rand, 2+c.Intn(12))
					text := strings.Join(words, " ")
					for _, s := range segments(c.Rand, text) {
						writeOnce(p, s)
						model.write(s)
						lastWrite = clock.Now()
						history = append(history, fmt.Sprintf("%q", s))
						for c.Intn(6) == 0 {
							d := []time.Duration{0, time.Second, 4 * time.Second, 4999 * time.Millisecond, 5 * time.Second, 5*time.Second + 1, 6 * time.Second, time.Hour}[c.Intn(8)]
							clock.Add(d)
							checks := 1 + c.Intn(3)
							for j := 0; j < checks; j++ {
								p.CheckWriteTimeout()
							}
							if clock.Now().Sub(lastWrite) > 5*time.Second {
								model.pause()
							}
							c.Count("timeout checks", checks)
							history = append(history, fmt.Sprintf("%dx check after %v", checks, clock.Now().Sub(lastWrite)))
						}
					}
					if lw := p.LastWrite(); !lw.Equal(lastWrite) {
						c.Failf("LastWrite is %v instead of %v", lw, lastWrite)
					}
					complete := c.Intn(3) > 0 // otherwise restart while text is still waiting
					if complete {
						p.Write([]byte(" " + sentinel + " k"))
						model.write(" " + sentinel + " k")
						want := strings.ToUpper(sentinel)
						before := 0
						for _, e := range rec.all()[:start] {
							if e.Kind == "decoded" && e.Call == want {
								before++
							}
						}
						if !vh.WaitFor(func() bool { return rec.count("decoded", want) > before }) {
							c.FailWith(history, "the last callsign of the text was not counted")
							c.Abort()
						}
						c.Count("complete sessions", 1)
					} else {
						c.Count("interrupted sessions", 1)
					}
					p.Stop()
					got := rec.all()[start:]
					if msg := compare(got, model.expected, !complete); msg != "" {
						c.FailWith(map[string]any{"history": history, "events": fmt.Sprint(rec.all())}, "session %d: %s, history %.600v", session, msg, history)
						c.Abort()
					}
				}
			})
			c.Key(fmt.Sprint(history))
			c.Sample(map[string]any{"history": history, "events": fmt.Sprint(rec.all())})
			c.Count("events", len(rec.all()))
		})
	})
	// a listener that is attached to another signal, the text must be that of a new listener
	r.Parallel(8, r.N(1200, 8000), func(i int) {
		r.Case(fmt.Sprintf("listener/%d", i), func(c *vh.C) {
			c13listener(c)
		})
	})
}

func c13listener(c *vh.C) {
	clock := newClock()
	const rate, block = 48000, 512
	create := func() (*rx.Listener[float32, int], *bytes.Buffer, *nullReporter) {
		out, rep := &bytes.Buffer{}, &nullReporter{}
		return rx.NewListener[float32, int]("a", out, clock, rep, rate, block), out, rep
	}
	used, usedOut, rep := create()
	debounce := 1 + c.Intn(3)
	used.SetSignalDebounce(debounce)
	ticks := float64(rate) / block
	sessions := 2 + c.Intn(3)
	var texts []string
	for session := 0; session < sessions; session++ {
		frequency := 7000000 + c.Intn(40000)
		peak := func() *dsp.Peak[float32, int] {
			return &dsp.Peak[float32, int]{From: 10, To: 12, SignalBin: 11, SignalFrequency: frequency}
		}
		var states []bool
		if c.Intn(4) == 0 {
			for n, state := 3+c.Intn(40), false; n > 0; n-- {
				for d := 1 + c.Intn(20); d > 0; d-- {
					states = append(states, state)
				}
				state = !state
			}
		} else {
			wpm := 8 + c.Float64()*30
			text := morse.RandomText(c.Rand, morse.Alphabet, 1+c.Intn(4), 5)
			texts = append(texts, text)
			states = morse.Key(morse.Encode(text), morse.DitSeconds(wpm)*ticks, c.Float64())
		}
		if c.Intn(3) == 0 {
			states = append(states, make([]bool, 200)...)
		} else { // it ends within a character
			states = states[:1+c.Intn(len(states))]
		}
		fresh, freshOut, _ := create()
		fresh.SetSignalDebounce(debounce)
		usedOut.Reset()
		c.Within("the listener", func() {
			for k, l := range []*rx.Listener[float32, int]{used, fresh} {
				l.Attach(peak())
				rnd := rand.New(rand.NewSource(int64(session)))
				for _, s := range states {
					value := float32(2 + rnd.Float64())
					if s {
						value = float32(20 + 5*rnd.Float64())
					}
					l.Listen(value, 10)
				}
				l.Detach()
				if k == 0 { // not attached anymore
					before := usedOut.Len()
					for n := c.Intn(60); n > 0; n-- {
						l.Listen(float32(c.Intn(2)*20), 10)
					}
					if usedOut.Len() != before {
						c.Failf("a detached listener writes %q", usedOut.String()[before:])
					}
				}
			}
		})
		if got, want := usedOut.String(), freshOut.String(); got != want {
			c.FailWith(map[string]any{"texts": texts, "states": len(states)}, "in session %d, the listener decodes %q, a new listener decodes %q", session, got, want)
			c.Abort()
		}
		c.Count("characters of listeners", usedOut.Len())
	}
	if len(rep.deactivated) != sessions {
		c.Failf("%d deactivations are reported for %d sessions", len(rep.deactivated), sessions)
	}
	c.Key(fmt.Sprint(texts))
}
