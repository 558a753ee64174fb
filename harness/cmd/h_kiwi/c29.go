package main

import (
	"fmt"
	"math"
	"sync"
	"time"

	"github.com/ftl/sdrainer/kiwi"
	"github.com/gorilla/websocket"

	"verif/vh"
)

type delivery struct {
	rate int
	data []float32 // as delivered, kept
	copy []float32 // as it was when it was delivered
}

// handler records the calls of the client.
type handler struct {
	mu         sync.Mutex
	connected  []int
	deliveries []delivery
	onIQ       func()
	late       int
	closed     bool
}

func (h *handler) Connected(rate int) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.connected = append(h.connected, rate)
}

func (h *handler) IQData(rate int, data []float32) {
	if h.onIQ != nil {
		h.onIQ()
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	h.deliveries = append(h.deliveries, delivery{rate, data, append([]float32{}, data...)})
}

func (h *handler) count() (int, int) {
	h.mu.Lock()
	defer h.mu.Unlock()
	return len(h.connected), len(h.deliveries)
}

// c29 sends IQ messages and compares what is delivered.
func c29(r *vh.Run) {
	r.Rule("a case is a session with 20 to 150 messages: IQ messages with random samples (also extreme values) of random and repeated sizes, interleaved with configuration messages, changes of the sample rate, messages of other and unknown types and text messages, before and after the sample rate is announced; all deliveries are compared with the messages, and all delivered data is compared again at the end of the session; distinct: the sequence of message types and sizes")
	n := r.N(600, 12000)
	if raceStage() {
		n = r.N(100, 1500)
	}
	r.Parallel(8, n, func(i int) {
		r.Case(fmt.Sprintf("iq/%d", i), func(c *vh.C) { c29Case(c) })
	})
}

func randomSamples(c *vh.C, n int) []int16 {
	result := make([]int16, n)
	mode := c.Intn(4)
	for i := range result {
		switch mode {
		case 0:
			result[i] = []int16{math.MinInt16, math.MaxInt16, 0, 1, -1, 255, 256, -256, -257}[c.Intn(9)]
		case 1:
			result[i] = int16(i)
		default:
			result[i] = int16(c.Uint32())
		}
	}
	return result
}

func c29Case(c *vh.C) {
	k := newSDR(c, nil)
	defer k.close()
	h := &handler{}
	if c.Intn(4) == 0 {
		delay := time.Duration(c.Intn(300)) * time.Microsecond
		h.onIQ = func() { time.Sleep(delay) }
	}
	client, err := kiwi.Open(k.address, "user", "pw", 7020000, 12000, h)
	if err != nil {
		c.FailWith(nil, "Open: %v", err)
		c.Abort()
	}
	defer client.Close()
	s := k.session(c)

	type expect struct {
		rate    int
		samples []int16
	}
	var expected []expect
	var script []string
	rate := 0
	send := func(what string, kind int, data []byte) {
		script = append(script, what)
		if err := s.send(kind, data); err != nil {
			c.FailWith(script, "the client ended the session: %v", err)
			c.Abort()
		}
	}
	sendIQ := func(n int) {
		samples := randomSamples(c, n)
		if rate != 0 {
			expected = append(expected, expect{rate, samples})
		}
		send(fmt.Sprint("iq", n), websocket.BinaryMessage, snd(c, samples))
	}
	sendRate := func() {
		rate = []int{12000, 20250, 11998, 8000, 1 + c.Intn(50000)}[c.Intn(5)]
		text := fmt.Sprintf(" audio_rate=%d", rate)
		if c.Intn(2) == 0 {
			text = " audio_init=0" + text
		}
		if c.Intn(2) == 0 {
			text += " sample_rate=12001.135 x=1"
		}
		send(fmt.Sprint("rate", rate), websocket.BinaryMessage, []byte("MSG"+text))
	}
	size := 1024
	messages := 20 + c.Intn(130)
	announce := c.Intn(20)
	for i := 0; i < messages; i++ {
		if i == announce {
			sendRate()
			continue
		}
		switch c.Intn(16) {
		case 0:
			send("config", websocket.BinaryMessage, []byte("MSG"+[]string{" client_public_ip=1.2.3.4", " load_cfg=%7B%22a%22%3A1%7D", " version_maj=1 version_min=550", " badp=0 center_freq=15000000 bandwidth=30000000", " too_busy=0", " down=0", "", " ", "bare"}[c.Intn(9)]))
		case 1:
			if i > announce && c.Intn(3) == 0 {
				sendRate()
			}
		case 2:
			b := make([]byte, c.Intn(3000))
			c.Read(b)
			send("other", websocket.BinaryMessage, append([]byte([]string{"W/F", "EXT", "ABC", "snd", "DAT"}[c.Intn(5)]), b...))
		case 3:
			// the same bytes as an IQ message, but not as binary data
			send("text", websocket.TextMessage, append([]byte("SND"), make([]byte, 17+2*c.Intn(100))...))
		case 4:
			send("tag only", websocket.BinaryMessage, []byte([]string{"MSG", "W/F", "XXX"}[c.Intn(3)]))
		case 5:
			size = []int{0, 1, 2, 1024, 2048, 512, c.Intn(5000)}[c.Intn(7)]
			sendIQ(size)
		default:
			sendIQ(size)
		}
	}
	if rate == 0 {
		sendRate()
	}
	sendIQ(77) // the last message
	c.Reach(func() bool { _, n := h.count(); return n >= len(expected) || s.ended() }, func() any { return script }, "not all IQ messages were delivered")
	h.mu.Lock()
	deliveries := append([]delivery{}, h.deliveries...)
	connected := append([]int{}, h.connected...)
	h.mu.Unlock()
	if s.ended() {
		c.FailWith(script, "the client ended the session: %v", s.err)
		c.Abort()
	}
	if len(deliveries) != len(expected) {
		c.FailWith(script, "%d deliveries for %d IQ messages", len(deliveries), len(expected))
		c.Abort()
	}
	if len(connected) != 1 {
		c.FailWith(script, "the handler was told about the connection %d times", len(connected))
	}
	values := 0
	for i, d := range deliveries {
		e := expected[i]
		if d.rate != e.rate {
			c.FailWith(script, "delivery %d has the sample rate %d instead of %d", i, d.rate, e.rate)
			c.Abort()
		}
		if len(d.copy) != len(e.samples) {
			c.FailWith(script, "delivery %d has %d values instead of %d", i, len(d.copy), len(e.samples))
			c.Abort()
		}
		for j, v := range e.samples {
			if want := float64(v) / 32767; math.Abs(float64(d.copy[j])-want) > 1e-6 {
				c.FailWith(script, "value %d of delivery %d is %v instead of %v", j, i, d.copy[j], want)
				c.Abort()
			}
			if d.copy[j] != d.data[j] {
				c.FailWith(script, "value %d of delivery %d was modified from %v to %v after it was delivered", j, i, d.copy[j], d.data[j])
				c.Abort()
			}
			values++
		}
	}
	c.Count("IQ messages", len(expected))
	c.Count("values compared", values)
	c.Count("other messages", len(script)-len(expected))
	c.Eval(len(expected))
	c.Key(fmt.Sprint(script))
	c.Sample(script[:10])
}
