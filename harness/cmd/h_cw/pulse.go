package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"sync"
	"time"

	"github.com/jfreymuth/pulse/proto"

	"verif/vh"
)

// pulseSource is an input of the simulated sound server. Its audio is played at any rate that is asked for.
type pulseSource struct {
	name     string
	rate     int
	channels int
	audio    func(rate int) []float32 // mono
}

// pulseServer is a simulated sound server: one connection, one record stream at a time. It converts the audio to the sample rate and number
// of channels that the client asks for, as Pulseaudio does.
type pulseServer struct {
	c       *vh.C
	ln      net.Listener
	sources []pulseSource // the first one is the default
	refuse  uint32        // the command that is refused
	limit   int           // the connection is lost after so many samples; 0: never
	sizes   int           // largest packet in frames
	repeat  func() bool   // the audio is repeated as long as it returns true, at twice the speed; may be nil

	mu       sync.Mutex
	commands []string
	played   bool // the complete audio was sent
	broken   bool
	conns    []net.Conn
	ended    int // connections that the client closed
}

func newPulseServer(c *vh.C, path string, sources []pulseSource) *pulseServer {
	ln, err := net.Listen("unix", path)
	if err != nil {
		c.Inconclusive("cannot listen: %v", err)
		c.Abort()
	}
	s := &pulseServer{c: c, ln: ln, sources: sources, sizes: 1 + c.Intn(3000)}
	return s
}

func (s *pulseServer) serve() {
	for {
		conn, err := s.ln.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		s.conns = append(s.conns, conn)
		s.mu.Unlock()
		go s.client(conn)
	}
}

func (s *pulseServer) close() {
	s.ln.Close()
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		c.Close()
	}
}

func (s *pulseServer) log(format string, args ...any) {
	s.mu.Lock()
	s.commands = append(s.commands, fmt.Sprintf(format, args...))
	s.mu.Unlock()
}

func (s *pulseServer) history() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.commands...)
}

func (s *pulseServer) contacted() bool { s.mu.Lock(); defer s.mu.Unlock(); return len(s.commands) > 0 }
func (s *pulseServer) complete() bool  { s.mu.Lock(); defer s.mu.Unlock(); return s.played }
func (s *pulseServer) lost() bool      { s.mu.Lock(); defer s.mu.Unlock(); return s.broken }

// ---- the protocol

type tagWriter struct{ b []byte }

func (w *tagWriter) u32(v uint32) *tagWriter {
	w.b = append(w.b, 'L')
	w.b = binary.BigEndian.AppendUint32(w.b, v)
	return w
}
func (w *tagWriter) str(v string) *tagWriter {
	if v == "" {
		w.b = append(w.b, 'N')
		return w
	}
	w.b = append(append(append(w.b, 't'), v...), 0)
	return w
}
func (w *tagWriter) spec(format byte, channels int, rate int) *tagWriter {
	w.b = append(w.b, 'a', format, byte(channels))
	w.b = binary.BigEndian.AppendUint32(w.b, uint32(rate))
	return w
}
func (w *tagWriter) chmap(n int) *tagWriter {
	w.b = append(w.b, 'm', byte(n))
	for i := 0; i < n; i++ {
		w.b = append(w.b, byte(i))
	}
	return w
}
func (w *tagWriter) volumes(n int) *tagWriter {
	w.b = append(w.b, 'v', byte(n))
	for i := 0; i < n; i++ {
		w.b = binary.BigEndian.AppendUint32(w.b, 0x10000)
	}
	return w
}
func (w *tagWriter) bool(v bool) *tagWriter {
	w.b = append(w.b, map[bool]byte{true: '1', false: '0'}[v])
	return w
}
func (w *tagWriter) usec(v uint64) *tagWriter {
	w.b = append(w.b, 'U')
	w.b = binary.BigEndian.AppendUint64(w.b, v)
	return w
}

// spec of a stream.
type spec struct {
	format   byte
	channels int
	rate     int
}

// tags reads the values of a request.
func tags(b []byte) (result []any) {
	defer func() {
		if recover() != nil {
			result = append(result, "malformed")
		}
	}()
	u32 := func(at int) uint32 { return binary.BigEndian.Uint32(b[at:]) }
	for len(b) > 0 {
		switch b[0] {
		case 'L', 'V':
			result = append(result, u32(1))
			b = b[5:]
		case 'N':
			result = append(result, "")
			b = b[1:]
		case 't':
			n := 1
			for b[n] != 0 {
				n++
			}
			result = append(result, string(b[1:n]))
			b = b[n+1:]
		case '0', '1':
			result = append(result, b[0] == '1')
			b = b[1:]
		case 'B':
			result = append(result, b[1])
			b = b[2:]
		case 'a':
			result = append(result, spec{b[1], int(b[2]), int(u32(3))})
			b = b[7:]
		case 'm':
			result = append(result, "channel map")
			b = b[2+int(b[1]):]
		case 'v':
			result = append(result, "volumes")
			b = b[2+4*int(b[1]):]
		case 'x':
			n := int(u32(1))
			result = append(result, b[5:5+n])
			b = b[5+n:]
		default:
			return append(result, fmt.Sprintf("unknown tag %q", b[0]))
		}
	}
	return result
}

func (s *pulseServer) client(conn net.Conn) {
	defer conn.Close()
	var write sync.Mutex
	send := func(index uint32, data []byte) error {
		frame := binary.BigEndian.AppendUint32(nil, uint32(len(data)))
		frame = binary.BigEndian.AppendUint32(frame, index)
		frame = append(frame, make([]byte, 12)...)
		frame = append(frame, data...)
		write.Lock()
		defer write.Unlock()
		_, err := conn.Write(frame)
		return err
	}
	var source *pulseSource
	var stream spec
	corked := make(chan struct{})
	for {
		head := make([]byte, 20)
		if _, err := io.ReadFull(conn, head); err != nil {
			s.mu.Lock()
			s.ended++
			s.mu.Unlock()
			return
		}
		body := make([]byte, binary.BigEndian.Uint32(head))
		if _, err := io.ReadFull(conn, body); err != nil || len(body) < 10 {
			return
		}
		command, tag := binary.BigEndian.Uint32(body[1:]), binary.BigEndian.Uint32(body[6:])
		w := &tagWriter{}
		w.u32(proto.OpReply).u32(tag)
		failure := uint32(0)
		switch command {
		case proto.OpAuth:
			s.log("auth")
			w.u32(12)
		case proto.OpSetClientName:
			s.log("set client name")
			w.u32(1)
		case proto.OpGetSourceInfo:
			args := tags(body[10:])
			s.log("get source info %v", args)
			var found *pulseSource
			if len(args) > 1 && args[1] == "" && args[0] == uint32(proto.Undefined) {
				found = &s.sources[0]
			}
			for i := range s.sources {
				if len(args) > 1 && (args[1] == s.sources[i].name || args[0] == uint32(i+10)) {
					found = &s.sources[i]
				}
			}
			if found == nil {
				failure = 5 // no such entity
				break
			}
			index := uint32(10)
			for i := range s.sources {
				if found == &s.sources[i] {
					index += uint32(i)
				}
			}
			w.u32(index).str(found.name).str("device of "+found.name).spec(3, found.channels, found.rate).chmap(found.channels).
				u32(1).volumes(found.channels).bool(false).u32(proto.Undefined).str("").usec(1000).str("driver").u32(0)
		case proto.OpCreateRecordStream:
			args := tags(body[10:])
			s.log("create record stream %v", args)
			if len(args) < 7 {
				failure = 3
				break
			}
			stream, _ = args[0].(spec)
			index, name := args[2], args[3]
			for i := range s.sources {
				if index == uint32(i+10) || name == s.sources[i].name {
					source = &s.sources[i]
				}
			}
			if source == nil && index == uint32(proto.Undefined) && name == "" {
				source = &s.sources[0]
			}
			if source == nil || stream.channels == 0 || stream.rate == 0 {
				failure = 5
				break
			}
			if stream.format != proto.FormatFloat32LE {
				s.c.Inconclusive("sample format %d is not simulated", stream.format)
			}
			w.u32(7).u32(8).u32(1<<20).u32(1<<10).spec(stream.format, stream.channels, stream.rate).chmap(stream.channels).u32(10).str(source.name).bool(false)
		case proto.OpCorkRecordStream:
			args := tags(body[10:])
			s.log("cork record stream %v", args)
			if len(args) > 1 && args[1] == false {
				if err := send(0xFFFFFFFF, w.b); err != nil {
					return
				}
				go s.play(conn, send, source, stream, corked)
				continue
			}
			select {
			case <-corked:
			default:
				close(corked)
			}
		default:
			s.log("command %d", command)
		}
		if s.refuse != 0 && command == s.refuse {
			failure = 1 // access denied
		}
		if failure != 0 {
			w = &tagWriter{}
			w.u32(proto.OpError).u32(tag).u32(failure)
		}
		if err := send(0xFFFFFFFF, w.b); err != nil {
			return
		}
	}
}

// play the audio of the source in packets of random size.
func (s *pulseServer) play(conn net.Conn, send func(uint32, []byte) error, source *pulseSource, stream spec, corked chan struct{}) {
	audio := source.audio(stream.rate)
	rnd := newRand(int64(len(audio)))
	for sent := 0; sent < len(audio); {
		select {
		case <-corked:
			return
		default:
		}
		n := min(1+rnd.Intn(s.sizes), len(audio)-sent)
		packet := make([]byte, 0, n*4*stream.channels)
		for _, v := range audio[sent : sent+n] {
			for i := 0; i < stream.channels; i++ {
				packet = binary.LittleEndian.AppendUint32(packet, math.Float32bits(v))
			}
		}
		if send(7, packet) != nil {
			return
		}
		sent += n
		if s.repeat != nil {
			time.Sleep(time.Duration(float64(n) / float64(stream.rate) / 2 * float64(time.Second)))
			if sent == len(audio) && s.repeat() {
				sent = 0
			}
		}
		if s.limit > 0 && sent >= s.limit {
			conn.Close()
			s.mu.Lock()
			s.broken = true
			s.mu.Unlock()
			return
		}
	}
	s.mu.Lock()
	s.played = true
	s.mu.Unlock()
}
