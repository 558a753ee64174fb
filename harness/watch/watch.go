// Package watch observes the scope of a running program.
package watch

import (
	"sync"
	"sync/atomic"
	"time"

	"github.com/ftl/sdrainer/scope"
)

// Client is a client of the scope that connects again and again.
type Client struct {
	mu       sync.Mutex
	spectral []*scope.SpectralFrame
	frames   []Frame
	stream   scope.StreamID
	segment  int
	ends     atomic.Bool
}

// Frame is a time frame and the connection that it came from. Frames within a connection are without gaps.
type Frame struct {
	*scope.TimeFrame
	Segment int
}

// Scope observes the given stream and the spectra of the scope.
func Scope(address string, stream scope.StreamID) *Client {
	w := &Client{stream: stream}
	go func() {
		for !w.ends.Load() {
			w.connect(address)
			time.Sleep(5 * time.Millisecond)
		}
	}()
	return w
}

func (w *Client) connect(address string) {
	client := scope.NewClient(address)
	if client.Open() != nil {
		return
	}
	defer client.Close()
	times, spectral, err := client.GetFrames()
	if err != nil {
		return
	}
	w.segment++
	for times != nil || spectral != nil {
		select {
		case f, ok := <-times:
			if !ok {
				times = nil
			} else if f.Stream == w.stream {
				w.mu.Lock()
				w.frames = append(w.frames, Frame{f, w.segment})
				w.mu.Unlock()
			}
		case f, ok := <-spectral:
			if !ok {
				spectral = nil
			} else {
				w.mu.Lock()
				w.spectral = append(w.spectral, f)
				w.mu.Unlock()
			}
		}
	}
}

// Take returns what was seen since the last call.
func (w *Client) Take() ([]*scope.SpectralFrame, []Frame) {
	w.mu.Lock()
	defer w.mu.Unlock()
	a, b := w.spectral, w.frames
	w.spectral, w.frames = nil, nil
	return a, b
}

// End stops the client.
func (w *Client) End() { w.ends.Store(true) }
