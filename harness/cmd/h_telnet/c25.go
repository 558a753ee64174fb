package main

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/ftl/sdrainer/telnet"

	"verif/vh"
)

// wire is a connection in memory that splits the input into given segments and accepts the output in parts.
type wire struct {
	mu      sync.Mutex
	cond    *sync.Cond
	rand    *rand.Rand
	input   [][]byte
	output  []byte
	closed  bool
	eof     bool
	partial bool
	writes  int
}

func newWire(seed int64, partial bool) *wire {
	w := &wire{rand: rand.New(rand.NewSource(seed)), partial: partial}
	w.cond = sync.NewCond(&w.mu)
	return w
}

func (w *wire) Read(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for len(w.input) == 0 {
		if w.closed {
			return 0, net.ErrClosed
		}
		if w.eof {
			return 0, io.EOF
		}
		w.cond.Wait()
	}
	n := copy(b, w.input[0])
	if n < len(w.input[0]) {
		w.input[0] = w.input[0][n:]
	} else {
		w.input = w.input[1:]
	}
	return n, nil
}

func (w *wire) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.closed {
		return 0, net.ErrClosed
	}
	n := len(b)
	if w.partial && n > 0 {
		switch w.rand.Intn(4) {
		case 0:
			n = 1
		case 1:
			n = 1 + w.rand.Intn(n)
		}
	}
	w.writes++
	w.output = append(w.output, b[:n]...)
	return n, nil
}

func (w *wire) Close() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.closed = true
	w.cond.Broadcast()
	return nil
}

func (w *wire) feed(b []byte) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(b) > 0 {
		w.input = append(w.input, append([]byte{}, b...))
	}
	w.cond.Broadcast()
}

func (w *wire) consumed() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.input) == 0
}

func (w *wire) text() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return string(w.output)
}

// c25 types into connections in all kinds of segments while spots are delivered.
func c25(r *vh.Run) {
	r.Rule("a case is a connection with a random input (callsigns, commands, empty lines, control characters; lines end with CR, LF or both; inputs up to 20 kB), typed in random segments (single bytes, splits at and between line ends, blocks larger than the read buffer) while random spots are delivered, over a connection in memory that accepts the output completely or in parts, or over TCP; the output without the spots must be the greeting and one answer per line; distinct: input, segments, and the positions of the spots in the output")
	n, m := r.N(6000, 100000), r.N(100, 1000)
	r.Parallel(8, n, func(i int) {
		r.Case(fmt.Sprintf("memory/%d", i), func(c *vh.C) { c25Memory(c) })
	})
	r.Parallel(32, m, func(i int) {
		r.Case(fmt.Sprintf("tcp/%d", i), func(c *vh.C) { c25TCP(c) })
	})
}

// randomInput returns the bytes and the lines in it, each ended by CR or LF.
func randomInput(c *vh.C) (string, []string) {
	var b strings.Builder
	lines := 1 + c.Intn(6)
	if c.Intn(10) == 0 {
		lines = c.Intn(200)
	}
	for i := 0; i < lines; i++ {
		switch c.Intn(8) {
		case 0:
		case 1:
			for n := c.Intn(30); n > 0; n-- {
				b.WriteByte(byte(32 + c.Intn(95)))
			}
		case 2:
			for n := c.Intn(10); n > 0; n-- {
				b.WriteByte(byte([]int{0, 7, 8, 9, 11, 12, 27, 127, 65}[c.Intn(9)]))
			}
		case 3:
			b.WriteString("sh/dx 20")
		case 4:
			if c.Intn(10) == 0 {
				b.WriteString(strings.Repeat("LONG", c.Intn(1200)))
			} else {
				b.WriteString("welcome")
			}
		default:
			b.WriteString(uniqueCall(c.Intn(1000000)))
		}
		b.WriteString([]string{"\n", "\r", "\r\n", "\n", "\n\r"}[c.Intn(5)])
	}
	if c.Intn(3) == 0 {
		b.WriteString("unfinished")
	}
	text := b.String()
	var result []string
	rest := text
	for {
		i := strings.IndexAny(rest, "\r\n")
		if i < 0 {
			break
		}
		result = append(result, rest[:i])
		rest = rest[i+1:]
	}
	return text, result
}

func segments(c *vh.C, text string) [][]byte {
	var result [][]byte
	mode := c.Intn(4)
	for len(text) > 0 {
		n := 1
		switch mode {
		case 1:
			n = 1 + c.Intn(8)
		case 2:
			n = 1 + c.Intn(len(text))
		case 3:
			n = len(text)
		}
		if n > len(text) {
			n = len(text)
		}
		result = append(result, []byte(text[:n]))
		text = text[n:]
	}
	return result
}

// dialog is the output that the lines must lead to.
func dialog(welcome string, lines []string) string {
	result := welcome + prompt
	for i, line := range lines {
		if i == 0 {
			result += "welcome " + line
		}
		result += "\n"
	}
	return result
}

// removeSpots takes the spots out of the output; each must be there exactly once, in order.
func removeSpots(output string, spots []string) (string, []int, error) {
	result, pos := "", []int{}
	for i, spot := range spots {
		at := strings.Index(output, spot)
		if at < 0 {
			return "", nil, fmt.Errorf("spot %d of %d is missing, or at the wrong place, or mixed with other output", i, len(spots))
		}
		result += output[:at]
		pos = append(pos, len(result))
		output = output[at+len(spot):]
	}
	return result + output, pos, nil
}

func c25Memory(c *vh.C) {
	welcome := fmt.Sprintf("SDRainer Version %d\n", c.Intn(100))
	w := newWire(c.Int63(), c.Intn(2) == 0)
	text, lines := randomInput(c)
	parts := segments(c, text)
	early := c.Intn(4) == 0
	if early {
		// the client types before it is greeted
		for _, p := range parts {
			w.feed(p)
		}
	}
	conn := telnet.NewConnection(w, welcome)
	defer conn.Close()
	var spots []string
	want := len(dialog(welcome, lines))
	spot := func() {
		s := fmt.Sprintf("<%d:%s>\n", len(spots), strings.Repeat("spot", c.Intn(20)))
		n, err := conn.Write([]byte(s))
		if n != len(s) || err != nil {
			c.Failf("Write accepts %d of %d bytes: %v", n, len(s), err)
			c.Abort()
		}
		spots = append(spots, s)
		want += len(s)
	}
	rate := 1 + c.Intn(10)
	for _, p := range parts {
		if c.Intn(rate) == 0 && len(spots) < 500 {
			spot()
		}
		if !early {
			w.feed(p)
		}
		if c.Intn(50) == 0 {
			time.Sleep(time.Duration(c.Intn(300)) * time.Microsecond)
		}
	}
	spot()
	if c.Intn(4) == 0 {
		w.mu.Lock()
		w.eof = true
		w.mu.Unlock()
		w.feed(nil)
		spot()
	}
	history := func() any {
		return map[string]any{"input": trunc(text), "segments": len(parts), "output": trunc(w.text()), "spots": len(spots)}
	}
	c.Reach(func() bool { return w.consumed() && len(w.text()) >= want }, history, "the output is incomplete: %d of %d bytes", len(w.text()), want)
	check := func() string {
		rest, pos, err := removeSpots(w.text(), spots)
		if err != nil {
			c.FailWith(history(), "%v", err)
			c.Abort()
		}
		if rest != dialog(welcome, lines) {
			c.FailWith(history(), "the answers are %q instead of %q", trunc(rest), trunc(dialog(welcome, lines)))
			c.Abort()
		}
		return fmt.Sprint(pos)
	}
	positions := check()
	if len(lines) > 0 && conn.String() != lines[0] {
		c.FailWith(history(), "the name of the connection is %q instead of %q", conn.String(), lines[0])
	}
	c.Within("Close", conn.Close)
	if !w.closed {
		c.Failf("the network connection is not closed")
	}
	positions = check()
	if _, err := conn.Write([]byte("x")); err == nil {
		c.Failf("a closed connection accepts output")
	}
	c.Count("lines typed", len(lines))
	c.Count("segments", len(parts))
	c.Count("spots", len(spots))
	c.Count("bytes typed", len(text))
	if w.partial {
		c.Count("cases with partial writes", 1)
	}
	c.Key(fmt.Sprint(text, len(parts), positions))
	c.Sample(history())
}

func trunc(s string) string {
	if len(s) > 400 {
		return s[:300] + "..." + s[len(s)-100:]
	}
	return s
}

func c25TCP(c *vh.C) {
	version := fmt.Sprint(c.Intn(1000))
	s, address := startServer(c, "DL0ABC", version)
	defer s.Stop()
	k := connect(c, address, "client", true)
	defer k.conn.Close()
	k.conn.SetNoDelay(true)
	text, lines := randomInput(c)
	k.awaitGreeting(c)
	if c.Intn(2) == 0 {
		k.conn.SetReadBuffer(2048)
	}
	done := make(chan struct{})
	count := 1 + c.Intn(12)
	go func() {
		defer close(done)
		for i := 0; i < count; i++ {
			s.Spot(fmt.Sprint("SP0T", i), 7e6, fmt.Sprint("c", i), day)
		}
	}()
	for _, p := range segments(c, text) {
		k.conn.Write(p)
		if c.Intn(10) == 0 {
			time.Sleep(time.Duration(c.Intn(500)) * time.Microsecond)
		}
	}
	expected := dialog("SDRainer Version "+version+"\n", lines)
	c.Reach(func() bool {
		return strings.Count(k.text(), "DX de DL0ABC:") == count && strings.HasSuffix(k.text(), "\n") && len(withoutSpots(k.text())) >= len(expected)
	}, func() any { return trunc(k.text()) }, "the output is incomplete")
	<-done
	if got := withoutSpots(k.text()); got != expected {
		c.FailWith([]string{trunc(text), trunc(k.text())}, "the answers are %q instead of %q", trunc(got), trunc(expected))
	}
	c.Count("lines typed over TCP", len(lines))
	c.Count("spots", count)
	c.Key(text)
}

// withoutSpots removes the spot lines.
func withoutSpots(s string) string {
	for {
		i := strings.Index(s, "DX de DL0ABC:")
		if i < 0 {
			return s
		}
		j := strings.IndexByte(s[i:], '\n')
		if j < 0 {
			return s
		}
		s = s[:i] + s[i+j+1:]
	}
}
