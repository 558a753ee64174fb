package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ftl/sdrainer/rx"

	"verif/prog"
	"verif/vh"
)

// c34 runs the real program against a simulated TCI device and real telnet clients.
func c34(r *vh.Run) {
	r.Rule("a case is a run of the program as its own process, with a simulated TCI device and telnet clients: (strain) one to three calling stations, every telnet client must get each station once with the reporter call, frequency and UTC time, the standard output must report the listeners and callsigns; (again) short silence period; (options) threshold, silence and busy timeouts, TRX, spots on the device; (decode) the standard output shows the text at VFO A; (end) a termination signal at a random point with silent, lost or missing devices and idle, stalled, half closed or not logged in clients; (refuse) an invalid host, or a telnet port that cannot be used, ends the program with an error; distinct: parameters of the runs")
	bin := prog.Binary()
	dir, err := os.MkdirTemp("", "verif-c34-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	os.WriteFile(filepath.Join(dir, "cty.dat"), []byte(ctyDat()), 0644)
	os.WriteFile(filepath.Join(dir, "MASTER.SCP"), []byte(scpDat()), 0644)
	zone := filepath.Join(dir, "zone")
	os.WriteFile(zone, zoneFile(5*3600+45*60), 0644)
	west := filepath.Join(dir, "west")
	os.WriteFile(west, zoneFile(-9*3600-30*60), 0644)
	env := &c34env{bin: bin, dir: dir, zones: []string{"", zone, west}}

	var wg sync.WaitGroup
	run := func(kind string, workers, n int, f func(c *vh.C, env *c34env)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.Parallel(workers, n, func(i int) { r.Case(fmt.Sprintf("%s/%d", kind, i), func(c *vh.C) { f(c, env) }) })
		}()
	}
	if raceStage() {
		run("strain", 4, r.N(4, 40), c34strain)
		run("decode", 2, r.N(2, 20), c34decode)
		run("end", 8, r.N(40, 600), c34end)
	} else {
		run("strain", 6, r.N(12, 200), c34strain)
		run("again", 2, r.N(4, 60), c34again)
		run("options", 6, r.N(18, 240), c34options)
		run("decode", 4, r.N(8, 160), c34decode)
		run("end", 16, r.N(160, 2400), c34end)
		run("refuse", 2, r.N(24, 300), c34refuse)
		run("reporter", 1, r.N(300, 3000), c34reporter)
	}
	wg.Wait()
}

type c34env struct {
	bin, dir string
	zones    []string
}

// zoneFile is a time zone with a fixed offset.
func zoneFile(offset int32) []byte {
	var b bytes.Buffer
	b.WriteString("TZif\x00")
	b.Write(make([]byte, 15))
	for _, n := range []uint32{0, 0, 0, 0, 1, 4} {
		binary.Write(&b, binary.BigEndian, n)
	}
	binary.Write(&b, binary.BigEndian, offset)
	b.Write([]byte{0, 0})
	b.WriteString("XXX\x00")
	return b.Bytes()
}

func (env *c34env) start(c *vh.C, args ...string) *prog.Program {
	return prog.Start(c, env.bin, env.dir, []string{"VERIF_LOCALCOPY_DIR=" + env.dir, "TZ=" + env.zones[c.Intn(len(env.zones))]}, args...)
}

func tail(s string, n int) string { return s[max(0, len(s)-n):] }

var nextPort atomic.Int64

// telnetPort finds a free port outside of the range of ephemeral ports.
func telnetPort() int {
	for {
		port := 12000 + (os.Getpid()*37+int(nextPort.Add(1)))%18000
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
		if err == nil {
			l.Close()
			return port
		}
	}
}

// startStrain starts the program with a telnet server; if the port is taken by somebody else, it is tried again.
func (env *c34env) startStrain(c *vh.C, args ...string) (*prog.Program, int) {
	for i := 0; ; i++ {
		port := telnetPort()
		p := env.start(c, append([]string{"strain", "tci", "--telnet_port", strconv.Itoa(port)}, args...)...)
		up := vh.WaitForD(func() bool {
			conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
			if err == nil {
				conn.Close()
			}
			return err == nil || !p.Running()
		}, vh.Patience)
		if up && p.Running() {
			return p, port
		}
		p.Kill()
		if i == 3 {
			c.FailWith(map[string]any{"args": p.Args, "stderr": p.Errors(), "stdout": p.Output()}, "the telnet server of the program cannot be reached (%v)", p.State)
			c.Abort()
		}
	}
}

// telnetClient is a client of the cluster interface.
type telnetClient struct {
	conn *net.TCPConn
	mu   sync.Mutex
	text bytes.Buffer
	ends bool
}

func dialTelnet(c *vh.C, port int) *telnetClient {
	conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		c.FailWith(nil, "cannot connect to the telnet server: %v", err)
		c.Abort()
	}
	return &telnetClient{conn: conn.(*net.TCPConn)}
}

func (t *telnetClient) read() {
	go func() {
		r := bufio.NewReader(t.conn)
		for {
			b := make([]byte, 1024)
			n, err := r.Read(b)
			t.mu.Lock()
			t.text.Write(b[:n])
			t.ends = t.ends || err != nil
			t.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
}

func (t *telnetClient) content() string { t.mu.Lock(); defer t.mu.Unlock(); return t.text.String() }

func (t *telnetClient) login(c *vh.C, call string) {
	t.read()
	c.Reach(func() bool { return strings.Contains(t.content(), "callsign:") }, func() any { return t.content() }, "the telnet server does not ask for the callsign")
	fmt.Fprintf(t.conn, "%s\r\n", call)
	c.Reach(func() bool { return strings.Contains(t.content(), "welcome") }, func() any { return t.content() }, "the telnet server does not welcome the client")
}

type c34spot struct {
	Reporter string
	KHz      float64
	Call     string
	Time     string
}

var reSpotLine = regexp.MustCompile(`^DX de (\S+): +(\d+\.\d) +(\S+) +cw +(\d{4})[zZ] *$`)

// spots that the client received. Malformed lines are an error.
func (t *telnetClient) spots() ([]c34spot, error) {
	var result []c34spot
	lines := strings.Split(t.content(), "\n")
	for _, line := range lines[:len(lines)-1] {
		if !strings.Contains(line, "DX de") {
			continue
		}
		m := reSpotLine.FindStringSubmatch(strings.TrimRight(line, "\r\x07"))
		if m == nil {
			return nil, fmt.Errorf("malformed spot %q", line)
		}
		khz, _ := strconv.ParseFloat(m[2], 64)
		result = append(result, c34spot{m[1], khz, m[3], m[4]})
	}
	return result, nil
}

// c34band is a device with stations.
type c34band struct {
	*band
	center int
	trx    int
	desc   []string
}

type c34station struct {
	call string
	freq int
}

func (b *c34band) addStation(c *vh.C, taken *[]int, call string) c34station {
	for {
		bin := 100 + c.Intn(312)
		ok := absInt(bin-256) > 4
		for _, o := range *taken {
			ok = ok && absInt(o-bin) >= 35
		}
		if !ok {
			continue
		}
		*taken = append(*taken, bin)
		wpm := 17 + c.Float64()*9
		lower := strings.ToLower(call)
		offset := float64(bin-256) * 93.75
		b.stations = append(b.stations, newStation("cq cq de "+lower+" "+lower+" k", offset, b.amplitude(40+c.Float64()*2), wpm, 48000, c.Intn(24000)))
		s := c34station{call, b.center + int(math.Round(offset))}
		b.desc = append(b.desc, fmt.Sprintf("%s on %d, %.1f WPM", call, s.freq, wpm))
		return s
	}
}

func (b *c34band) message() []float32 {
	var data []float32
	for i := 0; i < 4; i++ {
		data = append(data, b.next()...)
	}
	return data
}

// play sends the band until the condition holds, at most for the given duration of the signal; other TRX are sent, too.
func (b *c34band) play(c *vh.C, t *tciConn, signal time.Duration, until func() bool) bool {
	n := int(signal.Seconds() * 48000 / 2048)
	for i := 0; i < n; i++ {
		if i%8 == 0 && until() {
			return true
		}
		begin := time.Now()
		if t.iq(b.trx, 48000, b.message()) != nil {
			return until()
		}
		c.Count("IQ messages", 1)
		if d := 9*time.Millisecond - time.Since(begin); d > 0 {
			time.Sleep(d)
		}
	}
	return until()
}

var (
	c34calls     = []string{"DL1ABC", "K1A", "9A1AA", "EA8XYZ", "F5IN", "W7VP", "JA1QRS", "OE3GHI", "VK2DEF", "HB9TU"}
	reActivated  = regexp.MustCompile(`listener (\S+) activated on (\d+\.\d\d)kHz`)
	reDeactived  = regexp.MustCompile(`listener (\S+) deactivated on (\d+\.\d\d)kHz`)
	reHeard      = regexp.MustCompile(`callsign (\S+) heard (\d+) times on (\d+\.\d\d)kHz, weight is (\d+)`)
	reSpotted    = regexp.MustCompile(`callsign (\S+) spotted on (\d+\.\d\d)kHz`)
	terminations = []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP, syscall.SIGQUIT}
)

func newC34Band(c *vh.C) *c34band {
	return &c34band{band: newBand(48000, 512, 1e-3, c.Rand), center: 7000000 + c.Intn(400)*100, trx: c.Intn(3)}
}

// device that serves this band; the VFO is tuned to a frequency without a station.
func (b *c34band) device(c *vh.C, vfo int, reply func(t *tciConn, command string) (time.Duration, bool)) *tciDevice {
	other := b.trx + 1
	return newTCIDevice(c, greeting{24000, []string{
		fmt.Sprintf("dds:%d,14000000;", other), fmt.Sprintf("dds:%d,%d;", b.trx, b.center),
		fmt.Sprintf("if:%d,0,%d;", b.trx, vfo), fmt.Sprintf("if:%d,1,1234;", b.trx), fmt.Sprintf("if:%d,0,4321;", other),
	}}.send, reply)
}

func kHz(s string) float64 { f, _ := strconv.ParseFloat(s, 64); return f }

// trxFlag: the first TRX is the default.
func trxFlag(c *vh.C, trx int) string {
	if trx == 0 && c.Intn(2) == 0 {
		return "--debug=false"
	}
	return fmt.Sprintf("--trx=%d", trx)
}

func c34strain(c *vh.C, env *c34env) {
	b := newC34Band(c)
	d := b.device(c, -23500, nil)
	defer d.close()
	reporter := []string{"", "DL0TEST-#", "W1AW-2-#", "local"}[c.Intn(4)]
	args := []string{"--host", d.address, trxFlag(c, b.trx), "--spot_every", "1h"}
	if reporter != "" {
		args = append(args, "--telnet_call", reporter)
	} else {
		reporter = "local-#"
	}
	showSpots, showListeners := c.Intn(2) == 0, c.Intn(2) == 0
	if showSpots {
		args = append(args, "--show_spots")
	}
	if showListeners {
		args = append(args, "--show_listeners")
	}
	if c.Intn(3) == 0 {
		args = append(args, "--debug")
	}
	var stations []c34station
	var taken []int
	calls := c.Perm(len(c34calls))
	for n := 1 + c.Intn(3); len(stations) < n; {
		stations = append(stations, b.addStation(c, &taken, c34calls[calls[len(stations)]]))
	}
	p, port := env.startStrain(c, args...)
	defer p.Kill()
	var clients []*telnetClient
	detail := func() any {
		var texts []string
		for _, t := range clients {
			texts = append(texts, tail(t.content(), 2000))
		}
		return map[string]any{"args": p.Args, "stations": b.desc, "center": b.center, "stdout": tail(p.Output(), 4000), "stderr": tail(p.Errors(), 2000), "telnet": texts, "device": d.history()}
	}
	for n := 1 + c.Intn(3); len(clients) < n; {
		t := dialTelnet(c, port)
		defer t.conn.Close()
		clients = append(clients, t)
		t.login(c, fmt.Sprintf("DL%dTST", len(clients)))
	}
	t := d.connected(c)
	foreign := 0
	all := func() bool {
		if c.Intn(2) == 0 { // IQ data of another TRX
			t.iq(b.trx+1, 48000, make([]float32, 4096))
			foreign++
		}
		for _, client := range clients {
			spots, err := client.spots()
			if err != nil {
				c.FailWith(detail(), "%v", err)
				c.Abort()
			}
			for _, s := range stations {
				found := false
				for _, spot := range spots {
					found = found || spot.Call == s.call
				}
				if !found {
					return false
				}
			}
		}
		return true
	}
	before := time.Now().UTC()
	if !b.play(c, t, 170*time.Second, all) {
		c.Reach(all, detail, "not all stations are spotted to all clients")
	}
	// they go on calling: no further spots within the silence period
	b.play(c, t, time.Duration(10+c.Intn(30))*time.Second, func() bool { return false })
	sig := terminations[c.Intn(4)]
	p.End(c, sig, detail)
	after := time.Now().UTC()
	times := map[string]bool{}
	for m := before.Add(-time.Minute); !m.After(after.Add(time.Minute)); m = m.Add(30 * time.Second) {
		times[m.Format("1504")] = true
	}
	for _, client := range clients {
		c.Reach(func() bool { client.mu.Lock(); defer client.mu.Unlock(); return client.ends }, detail, "the telnet connection is not closed")
		spots, err := client.spots()
		if err != nil {
			c.FailWith(detail(), "%v", err)
			c.Abort()
		}
		seen := map[string]int{}
		for _, s := range spots {
			seen[s.Call]++
			if seen[s.Call] > 1 {
				c.FailWith(detail(), "%s is spotted again within the silence period", s.Call)
				c.Abort()
			}
			if s.Reporter != reporter {
				c.FailWith(detail(), "the reporter is %q, but %q is configured", s.Reporter, reporter)
				c.Abort()
			}
			if !times[s.Time] {
				c.FailWith(detail(), "the time of the spot %+v is not in UTC (it is %s)", s, after.Format("1504"))
				c.Abort()
			}
			ok := false
			for _, st := range stations {
				ok = ok || st.call == s.Call && math.Abs(s.KHz*1000-float64(st.freq)) <= 150
			}
			if !ok {
				c.FailWith(detail(), "the spot %+v is none of the stations", s)
				c.Abort()
			}
			c.Count("spots", 1)
		}
	}
	checkReports(c, p.Output(), stations, detail)
	if !t.has(fmt.Sprintf("iq_stop:%d;", b.trx)) {
		c.Reach(func() bool { return t.has(fmt.Sprintf("iq_stop:%d;", b.trx)) }, detail, "the IQ stream is not stopped")
	}
	for _, s := range d.history() {
		if !showSpots && strings.HasPrefix(s, "spot:>") || !showListeners && strings.HasPrefix(s, "spot:") && !strings.HasPrefix(s, "spot:>") {
			c.FailWith(detail(), "the device shows %s, but this is not enabled", s)
			c.Abort()
		}
	}
	if showSpots {
		for _, s := range stations {
			if !strings.Contains(strings.Join(d.history(), ""), "spot:>"+s.call+"<") {
				c.FailWith(detail(), "the device does not show the spot of %s", s.call)
				c.Abort()
			}
		}
	}
	if showListeners && !strings.Contains(strings.ReplaceAll(strings.Join(d.history(), ""), "spot:>", ""), "spot:") {
		c.FailWith(detail(), "the device does not show the listeners")
		c.Abort()
	}
	c.Key(fmt.Sprintf("strain %v %v %s", p.Args[4:], b.desc, sig))
	c.Sample(map[string]any{"args": p.Args, "stations": b.desc, "clients": len(clients), "stdout": short(p.Output())})
}

// checkReports checks that the standard output reports listeners and callsigns consistently.
func checkReports(c *vh.C, out string, stations []c34station, detail func() any) {
	near := func(khz float64, call string) bool {
		for _, s := range stations {
			if math.Abs(khz*1000-float64(s.freq)) <= 120 && (call == "" || call == s.call) {
				return true
			}
		}
		return false
	}
	activated := map[string]bool{}
	for _, m := range reActivated.FindAllStringSubmatch(out, -1) {
		activated[m[2]] = true
	}
	for _, s := range stations {
		heard, spotted, listener := false, false, false
		for f := range activated {
			listener = listener || math.Abs(kHz(f)*1000-float64(s.freq)) <= 120
		}
		for _, m := range reHeard.FindAllStringSubmatch(out, -1) {
			heard = heard || m[1] == s.call && near(kHz(m[3]), s.call)
			if !activated[m[3]] {
				c.FailWith(detail(), "%q is reported, but no listener on this frequency", m[0])
				c.Abort()
			}
		}
		for _, m := range reSpotted.FindAllStringSubmatch(out, -1) {
			spotted = spotted || m[1] == s.call && near(kHz(m[2]), s.call)
			if !near(kHz(m[2]), m[1]) {
				c.FailWith(detail(), "%q is reported, but there is no such station", m[0])
				c.Abort()
			}
		}
		if !listener || !heard || !spotted {
			c.FailWith(detail(), "the standard output does not report %s on %d (listener %v, heard %v, spotted %v)", s.call, s.freq, listener, heard, spotted)
			c.Abort()
		}
	}
	c.Count("reports checked", len(activated))
}

// c34again: with a short silence period, each report of a spot is announced.
func c34again(c *vh.C, env *c34env) {
	b := newC34Band(c)
	d := b.device(c, -23500, nil)
	defer d.close()
	period := []time.Duration{time.Millisecond, 3 * time.Second}[c.Intn(2)]
	var taken []int
	st := b.addStation(c, &taken, c34calls[c.Intn(len(c34calls))])
	p, port := env.startStrain(c, "--host", d.address, trxFlag(c, b.trx), "--spot_every", period.String())
	defer p.Kill()
	client := dialTelnet(c, port)
	defer client.conn.Close()
	client.login(c, "DL1TST")
	detail := func() any {
		return map[string]any{"args": p.Args, "stations": b.desc, "stdout": tail(p.Output(), 4000), "telnet": tail(client.content(), 2000)}
	}
	t := d.connected(c)
	var arrivals []time.Time
	enough := func() bool {
		spots, err := client.spots()
		if err != nil {
			c.FailWith(detail(), "%v", err)
			c.Abort()
		}
		for len(arrivals) < len(spots) {
			arrivals = append(arrivals, time.Now())
		}
		return len(spots) >= 3
	}
	if !b.play(c, t, 200*time.Second, enough) {
		c.FailWith(detail(), "the station is not spotted again with a silence period of %v", period)
		c.Abort()
	}
	for i := 1; i < len(arrivals); i++ {
		if d := arrivals[i].Sub(arrivals[i-1]); d < period-1500*time.Millisecond {
			c.FailWith(detail(), "the station is spotted again after %v, the silence period is %v", d, period)
		}
	}
	p.End(c, syscall.SIGTERM, detail)
	spots, _ := client.spots()
	reported := len(reSpotted.FindAllString(p.Output(), -1))
	if len(spots) > reported {
		c.FailWith(detail(), "%d spots, but %d reports", len(spots), reported)
	}
	_ = st
	c.Count("repeated spots", len(spots))
	c.Key(fmt.Sprintf("again %v %v", period, b.desc))
}

// c34options: what the flags change.
func c34options(c *vh.C, env *c34env) {
	b := newC34Band(c)
	d := b.device(c, -23500, nil)
	defer d.close()
	var taken []int
	kind := []string{"silence", "busy", "threshold"}[c.Intn(3)]
	st := b.addStation(c, &taken, c34calls[c.Intn(len(c34calls))])
	args := []string{"--host", d.address, trxFlag(c, b.trx)}
	switch kind {
	case "silence":
		args = append(args, "--silence", "2s", "--busy", "1h")
	case "busy":
		args = append(args, "--busy", "2s", "--silence", "1h")
	case "threshold":
		args = append(args, "--threshold", []string{"60", "75"}[c.Intn(2)])
	}
	p, _ := env.startStrain(c, args...)
	defer p.Kill()
	detail := func() any {
		return map[string]any{"args": p.Args, "stations": b.desc, "stdout": tail(p.Output(), 4000), "device": d.history()}
	}
	t := d.connected(c)
	if s := fmt.Sprintf("iq_start:%d;", b.trx); !t.has(s) {
		c.FailWith(detail(), "the stream of another TRX is started, not %s", s)
	}
	on := func(re *regexp.Regexp) bool {
		for _, m := range re.FindAllStringSubmatch(p.Output(), -1) {
			if math.Abs(kHz(m[2])*1000-float64(st.freq)) <= 120 {
				return true
			}
		}
		return false
	}
	switch kind {
	case "threshold":
		if b.play(c, t, 12*time.Second, func() bool { return on(reActivated) }) {
			c.FailWith(detail(), "a signal below the threshold is listened to")
			c.Abort()
		}
	default:
		if !b.play(c, t, 60*time.Second, func() bool { return on(reActivated) }) {
			c.FailWith(detail(), "no listener for the station")
			c.Abort()
		}
		start := time.Now()
		if kind == "silence" {
			b.play(c, t, 3*time.Second, func() bool { return false })
			b.stations, b.hints = nil, nil
		}
		released := false
		for !released && time.Since(start) < 9*time.Second {
			released = b.play(c, t, 2*time.Second, func() bool { return on(reDeactived) })
		}
		if !released {
			c.FailWith(detail(), "the listener is not released by the %s timeout of 2 s", kind)
			c.Abort()
		}
		if elapsed := time.Since(start); elapsed < 1500*time.Millisecond {
			c.FailWith(detail(), "the listener is released after %v, the timeout is 2 s", elapsed)
			c.Abort()
		}
	}
	p.End(c, terminations[c.Intn(4)], detail)
	c.Count("option "+kind, 1)
	c.Key(fmt.Sprintf("options %v %v", p.Args[4:], b.desc))
}

// c34decode: the text at VFO A is printed.
func c34decode(c *vh.C, env *c34env) {
	b := newC34Band(c)
	b.noise = 3e-3
	b.band = newBand(48000, 512, 3e-3, c.Rand)
	bin := 100 + c.Intn(312)
	if absInt(bin-256) <= 4 {
		bin = 270
	}
	var words []string
	for len(words) < 3+c.Intn(3) {
		w := make([]byte, 3+c.Intn(4))
		for i := range w {
			w[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[c.Intn(36)]
		}
		words = append(words, string(w))
	}
	offset := float64(bin-256) * 93.75
	b.stations = append(b.stations, newStation(strings.Join(words, " "), offset, b.amplitude(41), 18+c.Float64()*8, 48000, 0))
	var taken = []int{bin}
	if c.Intn(2) == 0 {
		b.addStation(c, &taken, "DL1ABC") // somewhere else
	}
	d := b.device(c, int(math.Round(offset)), nil)
	defer d.close()
	args := []string{"decode", "tci", "--host", d.address, trxFlag(c, b.trx)}
	if c.Intn(2) == 0 {
		args = append(args, "--debounce", "1")
	}
	p := env.start(c, args...)
	defer p.Kill()
	detail := func() any {
		return map[string]any{"args": args, "words": words, "stdout": tail(p.Output(), 4000), "stderr": tail(p.Errors(), 2000), "device": d.history()}
	}
	t := d.connected(c)
	foreign := newBand(48000, 512, 1e-3, c.Rand)
	foreign.stations = append(foreign.stations, newStation("paris", offset, foreign.amplitude(41), 20, 48000, 0))
	right := 0
	done := func() bool {
		var data []float32
		for i := 0; i < 4; i++ {
			data = append(data, foreign.next()...)
		}
		t.iq(b.trx+1, 48000, data)
		// The program skips IQ data when it does not get enough CPU time, so the text may have defects here (C18 judges all of it).
		got := strings.Fields(p.Output())
		right = 0
		inOrder := 0
		for i, g := range got {
			for k, w := range words {
				if g != w {
					continue
				}
				right++
				if i > 0 && got[i-1] == words[(k+len(words)-1)%len(words)] {
					inOrder++
				}
				break
			}
		}
		return len(got) >= 4+2*len(words) && right >= len(words) && inOrder >= 2
	}
	if !b.play(c, t, 240*time.Second, done) {
		c.FailWith(detail(), "the text at the VFO is not printed: %q, the station sends %q", p.Output(), words)
		c.Abort()
	}
	p.End(c, terminations[c.Intn(4)], detail)
	c.Count("words decoded", right)
	c.Reach(func() bool { return t.has(fmt.Sprintf("iq_stop:%d;", b.trx)) }, detail, "the IQ stream is not stopped")
	c.Key(fmt.Sprintf("decode %v %v", args, words))
	c.Sample(map[string]any{"args": args, "words": words, "stdout": short(p.Output())})
}

var reNumber = regexp.MustCompile(`[0-9]+(?:\.[0-9]+)?`)

// c34reporter: each report is one line with the callsign or the listener, and the frequency in kHz.
func c34reporter(c *vh.C, _ *c34env) {
	var out bytes.Buffer
	r := rx.NewTextReporter[int](&out)
	for n := 1 + c.Intn(10); n > 0; n-- {
		out.Reset()
		frequency := []int{1000 + c.Intn(1000000), 7000000 + c.Intn(40000), 1240000000 + c.Intn(1000000)}[c.Intn(3)]
		listener := fmt.Sprintf("rx%d", 1+c.Intn(30))
		call := []string{"DL1ABC", "K1A", "9A1AA", "EA8XYZ/P"}[c.Intn(4)]
		count, weight := 1+c.Intn(99), c.Intn(2)
		want := []string{call}
		var numbers []int
		kind := c.Intn(5)
		switch kind {
		case 0:
			want = []string{listener, "activated"}
			r.ListenerActivated(listener, frequency)
		case 1:
			want = []string{listener, "deactivated"}
			r.ListenerDeactivated(listener, frequency)
		case 2:
			numbers = []int{count, weight}
			r.CallsignDecoded(listener, call, frequency, count, weight)
		case 3:
			want = append(want, "spot")
			r.CallsignSpotted(listener, call, frequency)
		case 4:
			want = append(want, "timed out")
			r.SpotTimeout(listener, call, frequency)
		}
		line := out.String()
		detail := fmt.Sprintf("report %d of %s, %s on %d Hz, count %d, weight %d is %q", kind, listener, call, frequency, count, weight, line)
		if strings.Count(line, "\n") != 1 || !strings.HasSuffix(line, "\n") {
			c.Failf("not one line: %s", detail)
		}
		for _, w := range want {
			if !strings.Contains(line, w) {
				c.Failf("%q is missing: %s", w, detail)
			}
		}
		rest := strings.Replace(strings.Replace(line, call, "", 1), listener, "", 1)
		if kind == 0 && strings.Contains(line, "deactivated") {
			c.Failf("wrong report: %s", detail)
		}
		found := false
		for _, s := range reNumber.FindAllString(rest, -1) {
			v, _ := strconv.ParseFloat(s, 64)
			found = found || strings.Contains(rest, s+"kHz") && math.Abs(v*1000-float64(frequency)) <= 5.001
			if len(numbers) > 0 && int(v) == numbers[0] && !strings.Contains(s, ".") {
				numbers = numbers[1:]
			}
		}
		if !found || len(numbers) > 0 {
			c.Failf("the frequency (%v) or the count and weight are missing: %s", found, detail)
		}
		c.Count("lines of reports", 1)
		c.Key(line)
	}
}

// c34refuse: with arguments that cannot work, the program ends with an error.
func c34refuse(c *vh.C, env *c34env) {
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	occupied := l.Addr().(*net.TCPAddr).Port
	host, telnet := "127.0.0.1:9", telnetPort()
	hosts := []string{"127.0.0.1:port", "127.0.0.1:99999", "127.0.0.1:-4", "[::1:40001", "no.such.host.invalid", "127.0.0.1:40001:1"}
	what := ""
	strain := c.Intn(3) > 0
	n := c.Intn(3)
	if n == 1 || n == 2 {
		strain = true
	}
	switch n {
	case 0:
		what, host = "the host is invalid", hosts[c.Intn(len(hosts))]
	case 1:
		what, telnet = "the telnet port is occupied", occupied
	case 2:
		what, telnet = "the telnet port is invalid", []int{65536, 100000, -1}[c.Intn(3)]
	}
	args := []string{"decode", "tci", "--host", host}
	if strain {
		args = []string{"strain", "tci", "--host", host, fmt.Sprintf("--telnet_port=%d", telnet)}
	}
	if c.Intn(2) == 0 {
		args = append(args, "--debug")
	}
	p := env.start(c, args...)
	defer p.Kill()
	detail := map[string]any{"args": p.Args}
	ended := vh.WaitForD(func() bool { return !p.Running() }, 60*time.Second)
	detail["stdout"], detail["stderr"] = tail(p.Output(), 2000), tail(p.Errors(), 4000)
	switch e := p.Errors(); {
	case !ended:
		c.FailWith(detail, "the program does not end although %s", what)
	case p.State == nil:
		c.FailWith(detail, "the program ends with success although %s", what)
	case strings.Contains(e, "panic:") || strings.Contains(e, "fatal error:") || strings.Contains(e, "SIGSEGV"):
		c.FailWith(detail, "the program crashes if %s", what)
	}
	c.Count(what, 1)
	c.Key(fmt.Sprint(args))
}

// c34end: the program ends on request, whatever state the device and the clients are in.
func c34end(c *vh.C, env *c34env) {
	b := newC34Band(c)
	device := []string{"missing", "not answering", "no greeting", "silent", "working", "working", "slow", "lost", "streaming", "streaming"}[c.Intn(10)]
	sig := terminations[c.Intn(4)]
	var address string
	var d *tciDevice
	hold := make(chan struct{})
	defer close(hold)
	l := listenLocal(c)
	address = l.Addr().String()
	reply := func(t *tciConn, command string) (time.Duration, bool) {
		switch device {
		case "silent":
			return 0, false
		case "slow":
			return 80 * time.Millisecond, true
		}
		return 0, true
	}
	greet := greeting{24000, []string{fmt.Sprintf("dds:%d,%d;", b.trx, b.center), fmt.Sprintf("if:%d,0,500;", b.trx)}}.send
	switch device {
	case "missing":
		l.Close()
	case "not answering":
		defer l.Close()
	case "no greeting":
		d = serveTCI(l, func(t *tciConn) { <-hold }, reply)
		defer d.close()
	default:
		d = serveTCI(l, greet, reply)
		defer d.close()
	}
	var p *prog.Program
	var port int
	args := []string{"--host", address, "--trx", strconv.Itoa(b.trx)}
	decode := c.Intn(4) == 0
	if !decode && c.Intn(4) == 0 {
		args = append(args, "--debug")
	}
	withScope := c.Intn(3) == 0
	if withScope {
		args = append(args, "--scope", "--scope-address", fmt.Sprintf("127.0.0.1:%d", telnetPort()))
	}
	if decode {
		p = env.start(c, append([]string{"decode", "tci", "--debug"}, args...)...)
		// the signal handlers are installed before anything is connected
		vh.WaitForD(func() bool { return strings.Contains(p.Errors(), "connecting to") || !p.Running() }, vh.Patience)
		time.Sleep(time.Duration(c.Intn(100)) * time.Millisecond)
	} else {
		if c.Intn(2) == 0 {
			args = append(args, "--show_spots", "--show_listeners")
		}
		p, port = env.startStrain(c, args...)
		time.Sleep(time.Duration(50+c.Intn(50)) * time.Millisecond)
	}
	defer p.Kill()
	var clients []string
	detail := func() any {
		h := map[string]any{"args": p.Args, "device": device, "clients": clients, "stdout": tail(p.Output(), 2000), "stderr": tail(p.Errors(), 4000)}
		if d != nil {
			h["commands"] = d.history()
		}
		return h
	}
	for n := c.Intn(4); n > 0 && !decode; n-- {
		kind := []string{"new", "logged in", "stalled", "half closed", "reset", "flooding"}[c.Intn(6)]
		clients = append(clients, kind)
		t := dialTelnet(c, port)
		defer t.conn.Close()
		switch kind {
		case "new":
			t.read()
		case "logged in":
			t.login(c, "DL1TST")
		case "stalled":
			t.conn.SetReadBuffer(1024)
			fmt.Fprintf(t.conn, "DL1TST\r\n")
		case "half closed":
			fmt.Fprintf(t.conn, "DL1TST\r\n")
			t.conn.CloseWrite()
		case "reset":
			t.conn.SetLinger(0)
			t.conn.Close()
		case "flooding":
			go func() {
				line := []byte(strings.Repeat("help\r\n", 100))
				for {
					t.conn.SetWriteDeadline(time.Now().Add(time.Second))
					if _, err := t.conn.Write(line); err != nil {
						return
					}
				}
			}()
			go io.Copy(io.Discard, t.conn)
		}
	}
	var t *tciConn
	stop := make(chan struct{})
	defer close(stop)
	switch device {
	case "silent", "working", "slow", "lost", "streaming":
		t = d.connected(c)
	case "no greeting":
		c.Reach(func() bool {
			select {
			case t = <-d.conns:
				return true
			default:
				return false
			}
		}, detail, "the program does not connect")
	}
	switch device {
	case "lost":
		t.drop(c.Intn(2) == 0)
		time.Sleep(time.Duration(c.Intn(50)) * time.Millisecond)
	case "streaming":
		var taken []int
		for i := 0; i < 3; i++ {
			b.addStation(c, &taken, c34calls[i])
		}
		messages := make([][]float32, 50)
		for i := range messages {
			messages[i] = b.message()
		}
		fast := c.Intn(2) == 0
		go func() {
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				if t.iq(b.trx, 48000, messages[i%len(messages)]) != nil {
					return
				}
				if !fast {
					time.Sleep(5 * time.Millisecond)
				}
			}
		}()
		time.Sleep(time.Duration(c.Intn(300)) * time.Millisecond)
	}
	time.Sleep(time.Duration(c.Intn(20)) * time.Millisecond)
	p.End(c, sig, detail)
	if t != nil && device != "lost" && device != "no greeting" {
		c.Reach(func() bool { return t.has(fmt.Sprintf("iq_stop:%d;", b.trx)) }, detail, "the IQ stream is not stopped")
	}
	c.Count("ended with device "+device, 1)
	c.Key(fmt.Sprintf("end %s %v %v %v", device, clients, sig, p.Args[0]))
	c.Sample(map[string]any{"args": p.Args, "device": device, "clients": clients, "signal": sig.String()})
}
