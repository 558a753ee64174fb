package main

import (
	"bufio"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ftl/sdrainer/kiwi"
	"github.com/ftl/sdrainer/scope"
	"github.com/gorilla/websocket"

	"verif/vh"
)

// c30 is hostile to the client.
func c30(r *vh.Run) {
	r.Rule("a case is a client with a simulated KiwiSDR that sends random, truncated, malformed, fragmented or huge messages, refuses the session, or breaks the connection (at any point of the handshake, after any number of messages, with and without a close frame, by reset), or a client that is closed repeatedly and concurrently at a random time; every call has to return, ignored messages must not affect valid ones, and the connection has to be closed; the same for the process with receiver, of which also all settings are changed concurrently; distinct: the sequence of messages and faults")
	n, m, o, p := r.N(500, 10000), r.N(300, 6000), r.N(200, 4000), r.N(120, 2000)
	if raceStage() {
		n, m, o, p = r.N(60, 800), r.N(100, 1500), r.N(150, 2000), r.N(80, 1000)
	}
	r.Parallel(16, n, func(i int) {
		r.Case(fmt.Sprintf("messages/%d", i), func(c *vh.C) { c30Messages(c) })
	})
	r.Parallel(16, m, func(i int) {
		r.Case(fmt.Sprintf("breaks/%d", i), func(c *vh.C) { c30Breaks(c) })
	})
	r.Parallel(16, o, func(i int) {
		r.Case(fmt.Sprintf("close/%d", i), func(c *vh.C) { c30Close(c) })
	})
	r.Parallel(16, p, func(i int) {
		r.Case(fmt.Sprintf("process/%d", i), func(c *vh.C) { c30Process(c) })
	})
	r.Parallel(16, r.N(32, 200), func(i int) {
		r.Case(fmt.Sprintf("handshake/%d", i), func(c *vh.C) { c30Handshake(c) })
	})
}

// hostileMessage returns a message that must be ignored.
func hostileMessage(c *vh.C) (string, int, []byte) {
	b := make([]byte, c.Intn(64))
	c.Read(b)
	switch c.Intn(14) {
	case 0:
		return "empty", websocket.BinaryMessage, nil
	case 1:
		n := 1 + c.Intn(2)
		return fmt.Sprint("short", n), websocket.BinaryMessage, []byte("SND")[:n]
	case 2:
		n := c.Intn(17)
		return fmt.Sprint("truncated IQ ", n), websocket.BinaryMessage, append([]byte("SND"), make([]byte, n)...)
	case 3:
		for len(b) >= 3 && (string(b[:3]) == "SND" || string(b[:3]) == "MSG") {
			b[0]++
		}
		return "random", websocket.BinaryMessage, b
	case 4:
		s := []string{" audio_rate=", " audio_rate=abc", " audio_rate=1e9", " audio_rate=99999999999999999999", " audio_rate==5", " audio_rate=12 000", " audio_rate=-1", " audio_rate=-12000", " audio_rate=0",
			" audio_rate=1", " audio_rate=9223372036854775807", " audio_rate=-9223372036854775808", " audio_rate=0x2ee0", " audio_rate=12000.5"}
		text := s[c.Intn(len(s))]
		return "bad rate" + text, websocket.BinaryMessage, []byte("MSG" + text)
	case 5:
		return "bad escape", websocket.BinaryMessage, []byte("MSG load_cfg=%zz")
	case 6:
		return "binary config", websocket.BinaryMessage, append([]byte("MSG\x00=\xff= ="), []byte(strings.ReplaceAll(strings.ReplaceAll(string(b), "=", "-"), " ", "-"))...)
	case 7:
		return "config", websocket.BinaryMessage, []byte("MSG too_busy=0 badp=0 down=0 too_busy badp down = == a=b=c")
	case 8:
		return "huge", websocket.BinaryMessage, append([]byte("W/F"), make([]byte, 200000)...)
	case 9:
		return "text", websocket.TextMessage, []byte("MSG too_busy=1 badp=1 down=1 audio_rate=7")
	case 10:
		return "ping", websocket.PingMessage, b
	case 11:
		return "pong", websocket.PongMessage, b
	case 12:
		return "huge config", websocket.BinaryMessage, []byte("MSG " + strings.Repeat("x", 100000) + "=" + strings.Repeat(" ", 1000))
	}
	return "tag", websocket.BinaryMessage, []byte([]string{"MSG", "SND", "W/F", "EXT"}[c.Intn(4)])
}

func open(c *vh.C, k *sdr, h kiwi.KiwiHandler) (*kiwi.Client, error) {
	var client *kiwi.Client
	var err error
	c.Within("Open", func() { client, err = kiwi.Open(k.address, "user", "pw", 7020000, 12000, h) })
	return client, err
}

func closeClient(c *vh.C, client *kiwi.Client, s *session) {
	c.Within("Close", client.Close)
	if s != nil {
		c.Reach(s.ended, nil, "the connection is still open after Close")
	}
	c.Within("second Close", client.Close)
}

func c30Messages(c *vh.C) {
	k := newSDR(c, nil)
	defer k.close()
	h := &handler{}
	client, err := open(c, k, h)
	if err != nil {
		c.FailWith(nil, "Open: %v", err)
		c.Abort()
	}
	s := k.session(c)
	var script []string
	expected := 0
	known := false
	for i := 5 + c.Intn(40); i > 0; i-- {
		var err error
		switch c.Intn(5) {
		case 0:
			if !known || c.Intn(4) == 0 {
				known = true
				script = append(script, "rate")
				err = s.msg(" audio_rate=12000")
			} else {
				n := c.Intn(2000)
				expected++
				script = append(script, fmt.Sprint("iq", n))
				err = s.send(websocket.BinaryMessage, snd(c, make([]int16, n)))
			}
		default:
			what, kind, data := hostileMessage(c)
			if strings.HasPrefix(what, "bad rate") {
				// the rate may be unknown or known after it, so it is announced again
				known = false
			}
			script = append(script, what)
			if kind >= 8 {
				s.writeMu.Lock()
				err = s.ws.WriteControl(kind, data, time.Now().Add(10*time.Second))
				s.writeMu.Unlock()
			} else {
				err = s.send(kind, data)
			}
		}
		if err != nil {
			c.FailWith(script, "the client ended the session: %v", err)
			c.Abort()
		}
	}
	// valid messages are still processed
	s.msg(" audio_rate=12000")
	last := []int16{1, 2, 3, 4, 5}
	s.send(websocket.BinaryMessage, snd(c, last))
	done := func() bool {
		h.mu.Lock()
		defer h.mu.Unlock()
		n := len(h.deliveries)
		return n > 0 && len(h.deliveries[n-1].data) == 5 && h.deliveries[n-1].data[4] == float32(5)/32767
	}
	c.Reach(func() bool { return done() || s.ended() }, func() any { return script }, "a valid message was not processed after ignored messages")
	if s.ended() {
		c.FailWith(script, "the client ended the session: %v", s.err)
		c.Abort()
	}
	// some bad rates parse as a rate, then IQ data may be delivered that is not expected here
	if _, n := h.count(); n < expected+1 {
		c.FailWith(script, "only %d of %d IQ messages were delivered", n, expected+1)
	}
	refuse := []string{"", " too_busy=1", " badp=1", " down=1", " x=1 badp=1 audio_rate=5"}[c.Intn(5)]
	if refuse != "" {
		script = append(script, refuse)
		s.msg(refuse)
		c.Reach(s.ended, func() any { return script }, "the client does not end a refused session (%s)", refuse)
	}
	closeClient(c, client, s)
	c.Eval(len(script))
	c.Count("messages", len(script))
	c.Count("IQ messages between hostile ones", expected)
	c.Key(fmt.Sprint(script))
	c.Sample(script)
}

func c30Breaks(c *vh.C) {
	after := c.Intn(14) // messages received before the break
	how := c.Intn(5)
	random := c.Int63()
	var broken atomic.Bool
	breakIt := func(s *session) {
		broken.Store(true)
		switch how {
		case 0:
			s.raw.Close()
		case 1:
			s.raw.(*net.TCPConn).SetLinger(0)
			s.raw.Close()
		case 2:
			s.ws.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(time.Second))
			s.raw.Close()
		case 3:
			s.msg([]string{" too_busy=1", " badp=1", " down=1"}[random%3])
		case 4:
			s.raw.Write([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}) // not a frame
		}
	}
	k := newSDR(c, func(s *session) {
		for i := 0; i < after; i++ {
			s.ws.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
			_, data, err := s.ws.ReadMessage()
			if err != nil {
				break
			}
			s.mu.Lock()
			s.messages = append(s.messages, string(data))
			s.mu.Unlock()
			if i == 3 {
				s.msg(" audio_rate=12000")
			}
		}
		breakIt(s)
	})
	defer k.close()
	h := &handler{}
	client, err := open(c, k, h)
	if err == nil {
		if c.Intn(2) == 0 {
			time.Sleep(time.Duration(c.Intn(2000)) * time.Microsecond)
		}
		c.Within("Close", client.Close)
		c.Within("second Close", client.Close)
		c.Count("sessions broken after the handshake", 1)
	} else {
		c.Count("sessions broken in the handshake", 1)
	}
	c.Key(fmt.Sprint(after, how, err != nil, broken.Load()))
}

// c30Handshake answers the handshake with garbage.
func c30Handshake(c *vh.C) {
	l := listen(c)
	defer l.Close()
	kind := c.Intn(7)
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer conn.Close()
				switch kind {
				case 0:
					return
				case 1:
					conn.(*net.TCPConn).SetLinger(0)
					return
				}
				http.ReadRequest(bufio.NewReader(conn))
				switch kind {
				case 2:
					return
				case 3:
					conn.Write([]byte("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok"))
				case 4:
					conn.Write([]byte("HTTP/1.1 404 Not Found\r\n\r\n"))
				case 5:
					conn.Write([]byte("garbage\r\n\r\n"))
				case 6:
					conn.Write([]byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: wrong\r\n\r\n"))
				}
			}()
		}
	}()
	var err error
	var process *kiwi.Process
	if c.Intn(2) == 0 {
		c.Within("Open", func() { _, err = kiwi.Open(l.Addr().String(), "u", "p", 7e6, 12000, &handler{}) })
	} else {
		c.Within("New", func() { process, err = kiwi.New(l.Addr().String(), "u", "p", 7e6, 12000, nil) })
		if err != nil && process != nil {
			c.Failf("New returns a process and an error")
		}
	}
	if err == nil {
		c.Failf("there is no error after a failed handshake (kind %d)", kind)
	}
	c.Count("failed handshakes", 1)
	c.Key(fmt.Sprint("handshake", kind, process == nil))
}

func c30Close(c *vh.C) {
	k := newSDR(c, func(s *session) {
		s.msg(" audio_rate=12000")
	})
	defer k.close()
	block := make(chan struct{})
	h := &handler{}
	blocking := c.Intn(4) == 0
	if blocking {
		h.onIQ = func() { <-block }
	}
	client, err := open(c, k, h)
	if err != nil {
		c.FailWith(nil, "Open: %v", err)
		c.Abort()
	}
	s := k.session(c)
	stop := make(chan struct{})
	go func() {
		message := append([]byte("SND"), make([]byte, 17+2048)...)
		for {
			select {
			case <-stop:
				return
			default:
				if s.send(websocket.BinaryMessage, message) != nil {
					return
				}
			}
		}
	}()
	wait := c.Intn(3000)
	time.Sleep(time.Duration(wait) * time.Microsecond)
	closers := 1 + c.Intn(4)
	var wg sync.WaitGroup
	for i := 0; i < closers; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); client.Close() }()
	}
	if c.Intn(3) == 0 {
		s.raw.Close()
	}
	done := make(chan any, 1)
	go func() { wg.Wait(); done <- nil }()
	c.Await("concurrent Close", done)
	close(block)
	c.Reach(s.ended, nil, "the connection is still open after Close")
	close(stop)
	c.Within("another Close", client.Close)
	_, n := h.count()
	c.Count("concurrent closes", closers)
	c.Count("IQ messages before Close", n)
	c.Key(fmt.Sprint(wait/100, closers, blocking, n))
}

// frameCounter is a scope that counts the spectra.
type frameCounter struct{ spectra, times atomic.Int64 }

func (f *frameCounter) Active() bool                             { return true }
func (f *frameCounter) ShowTimeFrame(*scope.TimeFrame)           { f.times.Add(1) }
func (f *frameCounter) ShowSpectralFrame(s *scope.SpectralFrame) { f.spectra.Add(1) }

type noSpots struct{}

func (noSpots) Spot(string, float64, string, time.Time) {}

func c30Process(c *vh.C) {
	k := newSDR(c, nil)
	defer k.close()
	var p *kiwi.Process
	var err error
	c.Within("New", func() { p, err = kiwi.New(k.address, "user", "pw", 7020000, 10000, noSpots{}) })
	if err != nil {
		c.FailWith(nil, "New: %v", err)
		c.Abort()
	}
	s := k.session(c)
	counter := &frameCounter{}
	p.SetScope(counter)
	var script []string
	concurrent := c.Intn(2) == 0
	var wg sync.WaitGroup
	stop := make(chan struct{})
	if concurrent {
		for i := 1 + c.Intn(3); i > 0; i-- {
			wg.Add(1)
			seed := c.Intn(1000)
			go func() {
				defer wg.Done()
				for j := seed; ; j++ {
					select {
					case <-stop:
						return
					default:
					}
					switch j % 6 {
					case 0:
						p.SetThreshold(10 + j%10)
					case 1:
						p.SetRXFrequency(float64(7018000 + j%4000))
					case 2:
						p.SetSilenceTimeout(time.Duration(j%30) * time.Second)
					case 3:
						p.SetAttachmentTimeout(time.Duration(j%300) * time.Second)
					case 4:
						p.SetSignalDebounce(j % 5)
					case 5:
						p.SetScope(counter)
					}
					if j%3 == 0 {
						time.Sleep(50 * time.Microsecond)
					}
				}
			}()
		}
	}
	known := false
	for i := 5 + c.Intn(30); i > 0 && !s.ended(); i-- {
		switch c.Intn(4) {
		case 0:
			if !known {
				known = true
				script = append(script, "rate")
				s.msg(" audio_rate=12000")
			}
		case 1:
			n := []int{0, 1, 2, 3, 512, 1023, 1025, 1024, 2048, 1536, c.Intn(9000)}[c.Intn(11)]
			script = append(script, fmt.Sprint("iq", n))
			s.send(websocket.BinaryMessage, snd(c, randomSamples(c, n)))
		default:
			what, kind, data := hostileMessage(c)
			if kind >= 8 || strings.HasPrefix(what, "bad rate") && c.Intn(3) > 0 {
				continue
			}
			script = append(script, what)
			s.send(kind, data)
		}
	}
	if c.Intn(2) == 0 && !s.ended() && !strings.Contains(fmt.Sprint(script), "bad rate") {
		// (some bad rates parse as a rate, then the receiver keeps this rate) the receiver still works
		s.msg(" audio_rate=12000")
		before := counter.spectra.Load()
		c.Reach(func() bool {
			for i := 0; i < 40; i++ {
				s.send(websocket.BinaryMessage, snd(c, make([]int16, 1024)))
			}
			return counter.spectra.Load() > before || s.ended()
		}, func() any { return script }, "valid IQ data is not processed after ignored messages")
		c.Count("processes that work after hostile messages", 1)
	}
	if s.ended() {
		c.FailWith(script, "the client ended the session: %v", s.err)
	}
	switch c.Intn(4) {
	case 0:
		s.raw.Close()
	case 1:
		s.msg(" down=1")
	}
	closers := 1 + c.Intn(3)
	for i := 0; i < closers; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); p.Close() }()
	}
	c.Within("Close of the process", p.Close)
	close(stop)
	done := make(chan any, 1)
	go func() { wg.Wait(); done <- nil }()
	c.Await("concurrent use of the process", done)
	c.Reach(s.ended, nil, "the connection is still open after Close")
	c.Count("processes", 1)
	c.Count("messages", len(script))
	c.Key(fmt.Sprint(script, concurrent, closers))
}
