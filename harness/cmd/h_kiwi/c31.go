package main

import (
	"fmt"
	"math"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/ftl/sdrainer/kiwi"
	"github.com/gorilla/websocket"

	"verif/vh"
)

// c31 records what the client sends.
func c31(r *vh.Run) {
	r.Rule("a case is a session with random user name and password (also empty, with blanks, special and non-ASCII characters), frequency and bandwidth; the simulated KiwiSDR sends its configuration at once, in parts, or with repetitions and additional messages; all messages of the client until the first keep-alive message are checked, and the calls of the handler are counted; distinct: credentials, frequency and bandwidth")
	r.Parallel(128, r.N(384, 4096), func(i int) {
		r.Case(fmt.Sprintf("setup/%d", i), func(c *vh.C) { c31Case(c) })
	})
}

func randomSecret(c *vh.C) string {
	switch c.Intn(6) {
	case 0:
		return ""
	case 1:
		return []string{"#", "%", "%20", "+", "a b", "a=b", "a&b", "\"", "\n", "p= x", "SET mod=am", "100%s", "%d", "ä€𝄞", "\x00", strings.Repeat("long", 200)}[c.Intn(16)]
	}
	var b strings.Builder
	for n := c.Intn(20); n > 0; n-- {
		if c.Intn(10) == 0 {
			b.WriteRune(rune(c.Intn(0x2000) + 1))
		} else {
			b.WriteByte(byte(32 + c.Intn(95)))
		}
	}
	return b.String()
}

var reMode = regexp.MustCompile(`^SET mod=iq low_cut=(-?\d+) high_cut=(-?\d+) freq=(-?[\d.]+)$`)

func unescapes(s, to string) bool {
	if strings.ContainsAny(s, " \n\r\x00&=#") {
		return false
	}
	if u, err := url.QueryUnescape(s); err == nil && u == to {
		return true
	}
	u, err := url.PathUnescape(s)
	return err == nil && u == to
}

// checkSetup checks the messages of the client up to the requested mode, and returns an error.
func checkSetup(messages []string, user, password string, frequency float64, bandwidth int) error {
	if len(messages) < 4 {
		return fmt.Errorf("only %d messages", len(messages))
	}
	const auth = "SET auth t=kiwi p="
	if !strings.HasPrefix(messages[0], auth) || !unescapes(messages[0][len(auth):], password) {
		return fmt.Errorf("the first message %q is not the authentication with password %q", messages[0], password)
	}
	const ident = "SET ident_user="
	if !strings.HasPrefix(messages[1], ident) || !unescapes(messages[1][len(ident):], user) {
		return fmt.Errorf("the second message %q is not the identification as %q", messages[1], user)
	}
	seen := map[string]int{}
	mode := -1
	for i, m := range messages {
		if m == "SET keepalive" {
			if mode < 0 {
				return fmt.Errorf("message %d is a keep-alive message before the end of the setup", i)
			}
			continue
		}
		if mode >= 0 {
			return fmt.Errorf("message %d after the setup is %q", i, m)
		}
		if !strings.HasPrefix(m, "SET ") {
			return fmt.Errorf("message %d is %q", i, m)
		}
		seen[m]++
		if seen[m] > 1 {
			return fmt.Errorf("%q was sent %d times", m, seen[m])
		}
		for _, field := range strings.Fields(m) {
			key, value, ok := strings.Cut(field, "=")
			if !ok || i < 2 {
				continue
			}
			switch key {
			case "compression", "agc", "mod", "squelch":
				seen[key]++
				if seen[key] > 1 {
					return fmt.Errorf("%s was set %d times", key, seen[key])
				}
				if key != "mod" && value != "0" {
					return fmt.Errorf("%s is set to %s", key, value)
				}
			case "auth", "ident_user":
				return fmt.Errorf("unexpected message %q", m)
			}
		}
		if match := reMode.FindStringSubmatch(m); match != nil {
			mode = i
			low, _ := strconv.Atoi(match[1])
			high, _ := strconv.Atoi(match[2])
			f, err := strconv.ParseFloat(match[3], 64)
			if err != nil || math.Abs(f*1000-frequency) > 0.51 {
				return fmt.Errorf("the frequency %s kHz is not %.1f Hz", match[3], frequency)
			}
			if math.Abs(float64(low)+float64(bandwidth)/2) > 0.51 || math.Abs(float64(high)-float64(bandwidth)/2) > 0.51 || low != -high {
				return fmt.Errorf("the passband from %d to %d Hz has not the bandwidth %d", low, high, bandwidth)
			}
		}
	}
	if mode < 0 {
		return fmt.Errorf("the mode was not requested")
	}
	if seen["compression"] != 1 || seen["agc"] != 1 {
		return fmt.Errorf("compression or AGC were not selected")
	}
	return nil
}

func c31Case(c *vh.C) {
	user, password := randomSecret(c), randomSecret(c)
	frequency := float64(c.Intn(30000000))
	switch c.Intn(4) {
	case 0:
		frequency = float64(c.Intn(300)) * 100000
	case 1:
		frequency += c.Float64()
	}
	bandwidth := []int{12000, 10000, 0, 1, 501, c.Intn(12001)}[c.Intn(6)]
	rate := []int{12000, 20250, 1 + c.Intn(50000)}[c.Intn(3)]
	var config []string
	config = append(config, fmt.Sprintf(" audio_rate=%d", rate))
	for n := c.Intn(5); n > 0; n-- {
		config = append(config, []string{" version_maj=1 version_min=550", fmt.Sprintf(" audio_rate=%d", rate), fmt.Sprintf(" audio_init=0 audio_rate=%d sample_rate=%d.5", rate, rate), " badp=0", " too_busy=0 down=0", " load_cfg=%7B%7D", " freq_offset=0", ""}[c.Intn(8)])
	}
	c.Shuffle(len(config), func(i, j int) { config[i], config[j] = config[j], config[i] })
	before := c.Intn(2) == 0
	sendConfig := func(s *session) {
		for _, text := range config {
			s.msg(text)
		}
		s.send(websocket.BinaryMessage, append([]byte("SND"), make([]byte, 17+64)...))
	}
	k := newSDR(c, func(s *session) {
		if before {
			sendConfig(s)
		}
	})
	defer k.close()
	h := &handler{}
	var client *kiwi.Client
	var err error
	c.Within("Open", func() { client, err = kiwi.Open(k.address, user, password, frequency, bandwidth, h) })
	if err != nil {
		c.FailWith(nil, "Open: %v", err)
		c.Abort()
	}
	defer client.Close()
	s := k.session(c)
	c.Reach(s.setUp, func() any { return s.received() }, "the client does not complete the setup")
	if !before {
		if n, _ := h.count(); n != 0 {
			c.Failf("the handler was told about the connection before the sample rate is known")
		}
		sendConfig(s)
	}
	c.Reach(func() bool { _, n := h.count(); return n > 0 }, nil, "the IQ data was not delivered")
	keepalive := func() bool {
		list := s.received()
		return list[len(list)-1] == "SET keepalive"
	}
	c.Reach(func() bool { return keepalive() || s.ended() }, func() any { return s.received() }, "there is no keep-alive message")
	time.Sleep(time.Duration(c.Intn(100)) * time.Millisecond)
	list := s.received()
	if s.ended() {
		c.FailWith(list, "the client ended the session: %v", s.err)
	}
	if err := checkSetup(list, user, password, frequency, bandwidth); err != nil {
		c.FailWith(list, "user %q, password %q, %f Hz, bandwidth %d: %v", user, password, frequency, bandwidth, err)
	}
	for _, kind := range s.kinds {
		if kind != websocket.TextMessage {
			c.FailWith(list, "the client sends binary messages")
		}
	}
	if !strings.HasSuffix(s.path, "/SND") {
		c.Failf("the client connects to %s", s.path)
	}
	h.mu.Lock()
	connected := h.connected
	h.mu.Unlock()
	if len(connected) != 1 || connected[0] != rate {
		c.FailWith(config, "the handler was told about the connection with the sample rates %v instead of once with %d", connected, rate)
	}
	c.Count("messages checked", len(list))
	c.Count("sessions", 1)
	c.Key(fmt.Sprint(user, password, frequency, bandwidth))
	c.Sample(list)
}
