package main

import (
	"fmt"
	"math"
	"net"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ftl/sdrainer/telnet"

	"verif/vh"
)

const prompt = "Enter your callsign: "

// startServer starts a server on a free port.
func startServer(c *vh.C, mycall, version string) (*telnet.Server, string) {
	for i := 0; i < 20; i++ {
		address := freeAddress()
		s, err := telnet.NewServer(address, mycall, version)
		if err == nil {
			return s, address
		}
	}
	c.Inconclusive("no free port")
	c.Abort()
	return nil, ""
}

var hostCounter atomic.Int64

// freeAddress returns an address on a loopback host that is not used by another process of this check.
func freeAddress() string {
	pid := os.Getpid()
	host := fmt.Sprintf("127.%d.%d.%d", 1+pid>>8&127, pid&255, 1+hostCounter.Add(1)%250)
	for _, h := range []string{host, "127.0.0.1"} {
		l, err := net.Listen("tcp", h+":0")
		if err == nil {
			defer l.Close()
			return l.Addr().String()
		}
	}
	return "127.0.0.1:0"
}

// client is a telnet client that reads everything.
type client struct {
	name string
	conn *net.TCPConn

	mu   sync.Mutex
	data []byte
	err  error

	firstDue int // index of the first spot that must be received
	earliest int // index of the first spot that may be received
	ended    bool
}

func dial(address, name string, read bool) (*client, error) {
	d := net.Dialer{Timeout: 20 * time.Second}
	if !read {
		// a small window makes the network path full soon
		d.Control = func(_, _ string, raw syscall.RawConn) error {
			return raw.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 2048) })
		}
	}
	conn, err := d.Dial("tcp", address)
	if err != nil {
		return nil, err
	}
	result := &client{name: name, conn: conn.(*net.TCPConn)}
	if read {
		go result.read()
	}
	return result, nil
}

func connect(c *vh.C, address, name string, read bool) *client {
	result, err := dial(address, name, read)
	if err != nil {
		c.FailWith(nil, "cannot connect to the running server: %v", err)
		c.Abort()
	}
	return result
}

func (k *client) read() {
	buf := make([]byte, 4096)
	for {
		n, err := k.conn.Read(buf)
		k.mu.Lock()
		k.data = append(k.data, buf[:n]...)
		if err != nil {
			k.err = err
		}
		k.mu.Unlock()
		if err != nil {
			return
		}
	}
}

func (k *client) text() string {
	k.mu.Lock()
	defer k.mu.Unlock()
	return string(k.data)
}

func (k *client) closed() bool {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.err != nil
}

func (k *client) greeted() bool { return strings.Contains(k.text(), prompt) }

// lines returns the complete lines after the prompt, without the answers to the input.
func (k *client) lines() []string {
	_, rest, ok := strings.Cut(k.text(), prompt)
	if !ok {
		return nil
	}
	end := strings.LastIndexByte(rest, '\n')
	if end < 0 {
		return nil
	}
	var result []string
	for _, l := range strings.Split(rest[:end], "\n") {
		if l == "" || strings.HasPrefix(l, "welcome ") {
			continue
		}
		result = append(result, l)
	}
	return result
}

// sees tells if a complete line that contains the given text was received.
func (k *client) sees(what string) bool {
	text := k.text()
	i := strings.Index(text, what)
	return i >= 0 && strings.IndexByte(text[i:], '\n') >= 0
}

func (k *client) count(what string) int { return strings.Count(k.text(), what) }

func (k *client) reset() {
	k.conn.SetLinger(0)
	k.conn.Close()
}

func (k *client) awaitGreeting(c *vh.C) {
	c.Reach(k.greeted, func() any { return k.text() }, "client %s is not greeted", k.name)
}

// aSpot is one call of Spot.
type aSpot struct {
	call      string
	frequency float64
	msg       string
	time      time.Time
	begin     int64
	end       int64
}

func (s aSpot) String() string {
	return fmt.Sprintf("%s %.0f %q %s", s.call, s.frequency, s.msg, s.time.Format("15:04:05.000"))
}

var reLine = regexp.MustCompile(`^DX de (.+?): *(-?[\d.]+)  (\S+) +(.*?) *(\d{4}) ?z$`)

// checkLine compares a line with the spot it has to show.
func checkLine(line, mycall string, s aSpot) error {
	m := reLine.FindStringSubmatch(line)
	if m == nil {
		return fmt.Errorf("%q is not a spot", line)
	}
	if m[1] != mycall {
		return fmt.Errorf("%q: reporter is not %q", line, mycall)
	}
	f, err := strconv.ParseFloat(m[2], 64)
	if err != nil || math.Abs(f-s.frequency/1000) > 0.0501 || strings.Index(m[2], ".") != len(m[2])-2 {
		return fmt.Errorf("%q: frequency is not %.4f kHz with one decimal", line, s.frequency/1000)
	}
	if m[3] != s.call {
		return fmt.Errorf("%q: callsign is not %q", line, s.call)
	}
	if strings.TrimSpace(m[4]) != strings.TrimSpace(s.msg) {
		return fmt.Errorf("%q: comment is not %q", line, s.msg)
	}
	if m[5] != s.time.UTC().Format("1504") {
		return fmt.Errorf("%q: time is not %q", line, s.time.UTC().Format("1504"))
	}
	return nil
}

const letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

func randomReporter(c *vh.C) string {
	return fmt.Sprintf("%c%c%d%c%c%s", letters[c.Intn(26)], letters[c.Intn(26)], c.Intn(10), letters[c.Intn(26)], letters[c.Intn(26)],
		[]string{"", "-#", "-1-#", "/P"}[c.Intn(4)])
}

// uniqueCall makes a callsign of at most 8 characters out of a number.
func uniqueCall(i int) string {
	s := ""
	for n := i; len(s) < 4 || n > 0; n /= 26 {
		s += string(letters[n%26])
	}
	return s[:1] + string(rune('0'+i%10)) + s[1:]
}

func randomComment(c *vh.C, max int) string {
	words := []string{"cw", "20", "db", "18", "wpm", "cq", "tnx", "73", "up", "qsx", "test", "DX", "de", "loud!", "7005.5", "z", "0:", "/"}
	s := ""
	for n := c.Intn(8); n > 0; n-- {
		w := words[c.Intn(len(words))]
		if len(s)+1+len(w) > max {
			break
		}
		if s != "" {
			s += " "
		}
		s += w
	}
	return s
}
