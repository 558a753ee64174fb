// Command h_kiwi observes the KiwiSDR client (C29-C31) with simulated KiwiSDRs.
package main

import (
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gorilla/websocket"

	"verif/vh"
)

func main() {
	log.SetOutput(io.Discard)
	// the receiver prints its reports
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		defer func(out *os.File) { os.Stdout = out }(os.Stdout)
		vh.Main(map[string]func(*vh.Run){"C29": func(r *vh.Run) { os.Stdout = null; c29(r) }, "C30": func(r *vh.Run) { os.Stdout = null; c30(r) }, "C31": func(r *vh.Run) { os.Stdout = null; c31(r) }, "C38": c38})
	}
}

func raceStage() bool { return os.Getenv("VERIF_STAGE") == "race" }

var hostCounter atomic.Int64

func listen(c *vh.C) net.Listener {
	pid := os.Getpid()
	host := fmt.Sprintf("127.%d.%d.%d", 1+pid>>8&127, pid&255, 1+hostCounter.Add(1)%250)
	for _, h := range []string{host, "127.0.0.1"} {
		l, err := net.Listen("tcp", h+":0")
		if err == nil {
			return l
		}
	}
	c.Inconclusive("cannot listen")
	c.Abort()
	return nil
}

// session is the view of a simulated KiwiSDR on one connection.
type session struct {
	path string
	ws   *websocket.Conn
	raw  net.Conn

	mu       sync.Mutex
	messages []string
	kinds    []int
	err      error
	writeMu  sync.Mutex
}

func (s *session) received() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.messages...)
}

func (s *session) ended() bool { s.mu.Lock(); defer s.mu.Unlock(); return s.err != nil }

// setUp tells whether the client requested the mode, which is its last step.
func (s *session) setUp() bool {
	for _, m := range s.received() {
		if strings.HasPrefix(m, "SET mod=") {
			return true
		}
	}
	return false
}

func (s *session) readAll() {
	for {
		kind, data, err := s.ws.ReadMessage()
		s.mu.Lock()
		if err != nil {
			s.err = err
			s.mu.Unlock()
			return
		}
		s.messages = append(s.messages, string(data))
		s.kinds = append(s.kinds, kind)
		s.mu.Unlock()
	}
}

func (s *session) send(kind int, data []byte) error {
	s.writeMu.Lock()
	defer s.writeMu.Unlock()
	s.ws.SetWriteDeadline(time.Now().Add(30 * time.Second))
	return s.ws.WriteMessage(kind, data)
}

func (s *session) msg(text string) error { return s.send(websocket.BinaryMessage, []byte("MSG"+text)) }

// snd is an IQ message with the given samples.
func snd(c *vh.C, samples []int16) []byte {
	result := make([]byte, 20+2*len(samples))
	copy(result, "SND")
	c.Read(result[3:20])
	for i, v := range samples {
		result[20+2*i], result[21+2*i] = byte(uint16(v)>>8), byte(uint16(v))
	}
	return result
}

// sdr is a simulated KiwiSDR.
type sdr struct {
	address  string
	listener net.Listener
	server   *http.Server
	sessions chan *session
	accept   func(s *session) // called before anything is read, may be nil
}

func newSDR(c *vh.C, accept func(s *session)) *sdr {
	var l net.Listener
	if c.Intn(6) == 0 {
		var err error
		if l, err = net.Listen("tcp", "[::1]:0"); err == nil {
			c.Count("sessions with IPv6", 1)
		} else {
			l = nil
		}
	}
	if l == nil {
		l = listen(c)
	}
	k := &sdr{address: l.Addr().String(), listener: l, sessions: make(chan *session, 100), accept: accept}
	upgrader := websocket.Upgrader{ReadBufferSize: 4096, WriteBufferSize: 4096, CheckOrigin: func(*http.Request) bool { return true }}
	k.server = &http.Server{ErrorLog: log.New(io.Discard, "", 0), Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		ws, err := upgrader.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		s := &session{path: r.URL.Path, ws: ws, raw: ws.NetConn()}
		k.sessions <- s
		if k.accept != nil {
			k.accept(s)
		}
		s.readAll()
	})}
	go k.server.Serve(l)
	return k
}

func (k *sdr) close() {
	k.server.Close()
	k.listener.Close()
}

func (k *sdr) session(c *vh.C) *session {
	select {
	case s := <-k.sessions:
		return s
	case <-time.After(vh.Patience):
		c.FailWith(nil, "the client does not connect")
		c.Abort()
		return nil
	}
}
