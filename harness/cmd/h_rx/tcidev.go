package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gorilla/websocket"

	"verif/vh"
)

// ---- a simulated TCI device

var tciHosts atomic.Int64

func listenLocal(c *vh.C) net.Listener {
	pid := os.Getpid()
	host := fmt.Sprintf("127.%d.%d.%d", 1+pid>>8&127, pid&255, 1+tciHosts.Add(1)%250)
	for _, h := range []string{host, "127.0.0.1"} {
		if l, err := net.Listen("tcp", h+":0"); err == nil {
			return l
		}
	}
	c.Inconclusive("cannot listen")
	c.Abort()
	return nil
}

// tciConn is one connection to the device.
type tciConn struct {
	ws       *websocket.Conn
	raw      net.Conn
	writeMu  sync.Mutex
	mu       sync.Mutex
	commands []string
	ended    bool
}

func (t *tciConn) text(format string, args ...any) error {
	t.writeMu.Lock()
	defer t.writeMu.Unlock()
	t.ws.SetWriteDeadline(time.Now().Add(30 * time.Second))
	return t.ws.WriteMessage(websocket.TextMessage, []byte(fmt.Sprintf(format, args...)))
}

// settled sends text messages that mean nothing: the client has handled all previous text messages before it can see any later message.
func (t *tciConn) settled() {
	for i := 0; i < 4; i++ {
		t.text("nothing:%d;", i)
	}
}

func (t *tciConn) iq(trx, rate int, data []float32) error {
	return t.binary(trx, rate, 0, data)
}

func (t *tciConn) binary(trx, rate, kind int, data []float32) error {
	var b bytes.Buffer
	header := [16]uint32{uint32(trx), uint32(rate), 3, 0, 0, uint32(len(data)), uint32(kind), 2}
	binary.Write(&b, binary.LittleEndian, header)
	binary.Write(&b, binary.LittleEndian, data)
	t.writeMu.Lock()
	defer t.writeMu.Unlock()
	t.ws.SetWriteDeadline(time.Now().Add(30 * time.Second))
	return t.ws.WriteMessage(websocket.BinaryMessage, b.Bytes())
}

func (t *tciConn) received() []string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]string(nil), t.commands...)
}

func (t *tciConn) has(command string) bool {
	for _, s := range t.received() {
		if s == command {
			return true
		}
	}
	return false
}

// drop the connection, politely or not.
func (t *tciConn) drop(hard bool) {
	if hard {
		if tcp, ok := t.raw.(*net.TCPConn); ok {
			tcp.SetLinger(0)
		}
	}
	t.raw.Close()
}

// tciSpot is a spot on the spectrum display of the device.
type tciSpot struct {
	Mode string
	Freq int
	Text string
}

type tciDevice struct {
	address  string
	listener net.Listener
	server   *http.Server
	conns    chan *tciConn
	greet    func(t *tciConn)
	reply    func(t *tciConn, command string) (time.Duration, bool) // after which time the command is answered; may be nil
	started  chan *tciConn

	slow atomic.Int64 // the device takes so many milliseconds to accept a connection

	mu    sync.Mutex
	spots map[string]tciSpot
	errs  []string
	all   []string
}

func newTCIDevice(c *vh.C, greet func(t *tciConn), reply func(t *tciConn, command string) (time.Duration, bool)) *tciDevice {
	l := listenLocal(c)
	return serveTCI(l, greet, reply)
}

func serveTCI(l net.Listener, greet func(t *tciConn), reply func(t *tciConn, command string) (time.Duration, bool)) *tciDevice {
	d := &tciDevice{address: l.Addr().String(), listener: l, conns: make(chan *tciConn, 100), started: make(chan *tciConn, 100), greet: greet, reply: reply, spots: map[string]tciSpot{}}
	upgrader := websocket.Upgrader{ReadBufferSize: 1 << 15, WriteBufferSize: 1 << 15, CheckOrigin: func(*http.Request) bool { return true }}
	d.server = &http.Server{ErrorLog: log.New(io.Discard, "", 0), Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		time.Sleep(time.Duration(d.slow.Load()) * time.Millisecond)
		ws, err := upgrader.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		t := &tciConn{ws: ws, raw: ws.NetConn()}
		d.conns <- t
		if d.greet != nil {
			go d.greet(t)
		}
		d.serve(t)
	})}
	go d.server.Serve(l)
	return d
}

func (d *tciDevice) serve(t *tciConn) {
	for {
		kind, data, err := t.ws.ReadMessage()
		if err != nil {
			t.mu.Lock()
			t.ended = true
			t.mu.Unlock()
			return
		}
		if kind != websocket.TextMessage {
			continue
		}
		command := string(data)
		d.execute(command)
		t.mu.Lock()
		t.commands = append(t.commands, command)
		t.mu.Unlock()
		if strings.HasPrefix(command, "iq_start:") {
			d.started <- t
		}
		delay, ok := time.Duration(0), true
		if d.reply != nil {
			delay, ok = d.reply(t, command)
		}
		if !ok {
			continue
		}
		if delay == 0 {
			t.text("%s", command)
		} else {
			time.AfterFunc(delay, func() { t.text("%s", command) })
		}
	}
}

// execute a command at the display.
func (d *tciDevice) execute(command string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.all = append(d.all, command)
	name, args, _ := strings.Cut(strings.TrimSuffix(command, ";"), ":")
	a := strings.Split(args, ",")
	switch name {
	case "spot":
		if len(a) != 5 {
			d.errs = append(d.errs, command)
			return
		}
		f, err := strconv.Atoi(a[2])
		color, err2 := strconv.ParseUint(a[3], 10, 32)
		if err != nil || err2 != nil || color>>24 == 0 {
			d.errs = append(d.errs, command)
		}
		d.spots[a[0]] = tciSpot{Mode: strings.ToLower(a[1]), Freq: f, Text: a[4]}
	case "spot_delete":
		delete(d.spots, a[0])
	case "spot_clear":
		clear(d.spots)
	case "iq_start", "iq_stop", "iq_samplerate":
	default:
		d.errs = append(d.errs, command)
	}
}

func (d *tciDevice) displayed() map[string]tciSpot {
	d.mu.Lock()
	defer d.mu.Unlock()
	result := map[string]tciSpot{}
	for k, v := range d.spots {
		result[k] = v
	}
	return result
}

func (d *tciDevice) history() []string {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]string(nil), lastN(d.all, 60)...)
}

func (d *tciDevice) errors() []string {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]string(nil), d.errs...)
}

func (d *tciDevice) close() {
	d.server.Close()
	d.listener.Close()
	for {
		select {
		case t := <-d.conns:
			t.raw.Close()
			continue
		default:
		}
		break
	}
}

// connected waits for the next connection on which the IQ stream is started.
func (d *tciDevice) connected(c *vh.C) *tciConn {
	var t *tciConn
	c.Reach(func() bool {
		select {
		case t = <-d.started:
			return true
		default:
			return false
		}
	}, func() any { return d.history() }, "the IQ stream is not started")
	return t
}

// greeting is what a device sends when a client connects.
type greeting struct {
	limit int
	texts []string
}

func (g greeting) send(t *tciConn) {
	t.text("protocol:ExpertSDR3,1.9;")
	t.text("device:SunSDR2PRO;")
	t.text("if_limits:%d,%d;", -g.limit, g.limit)
	for _, s := range g.texts {
		t.text("%s", s)
	}
	t.settled()
	t.text("ready;")
}
