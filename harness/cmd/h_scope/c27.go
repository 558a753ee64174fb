package main

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/ftl/sdrainer/scope"
	"github.com/ftl/sdrainer/scope/pb"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"

	"verif/vh"
)

// viewer is a scope client on the level of the protocol, which sees the order of all frames, and can stop reading.
type viewer struct {
	name   string
	conn   *grpc.ClientConn
	cancel context.CancelFunc

	mu      sync.Mutex
	cond    *sync.Cond
	stalled bool
	lazy    bool
	leaving bool
	numbers []int
	err     error
}

func openViewer(c *vh.C, address, name string) *viewer {
	conn, err := grpc.NewClient(address, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		c.Inconclusive("cannot create a client: %v", err)
		c.Abort()
	}
	v := &viewer{name: name, conn: conn}
	v.cond = sync.NewCond(&v.mu)
	v.open(c, c.Int63())
	return v
}

func (v *viewer) open(c *vh.C, seed int64) {
	ctx, cancel := context.WithCancel(context.Background())
	v.cancel = cancel
	stream, err := pb.NewScopeClient(v.conn).GetFrames(ctx, nil)
	if err != nil {
		c.FailWith(nil, "client %s: cannot open the stream: %v", v.name, err)
		c.Abort()
	}
	random := rand.New(rand.NewSource(seed))
	go func() {
		for {
			v.mu.Lock()
			for v.stalled {
				v.cond.Wait()
			}
			lazy := v.lazy
			v.mu.Unlock()
			if lazy && random.Intn(4) == 0 {
				time.Sleep(time.Duration(random.Intn(3000)) * time.Microsecond)
			}
			frame, err := stream.Recv()
			v.mu.Lock()
			if err != nil {
				v.err = err
				v.mu.Unlock()
				return
			}
			switch f := frame.Frame.(type) {
			case *pb.Frame_TimeFrame:
				v.numbers = append(v.numbers, int(f.TimeFrame.Values["n"]))
			case *pb.Frame_SpectralFrame:
				v.numbers = append(v.numbers, int(f.SpectralFrame.ToFrequency))
			}
			v.mu.Unlock()
		}
	}()
}

func (v *viewer) set(stalled, lazy bool) {
	v.mu.Lock()
	v.stalled, v.lazy = stalled, lazy
	v.mu.Unlock()
	v.cond.Broadcast()
}

func (v *viewer) last() int {
	v.mu.Lock()
	defer v.mu.Unlock()
	if len(v.numbers) == 0 {
		return 0
	}
	return v.numbers[len(v.numbers)-1]
}

func (v *viewer) ended() bool { v.mu.Lock(); defer v.mu.Unlock(); return v.err != nil }

func (v *viewer) gapless() error {
	v.mu.Lock()
	defer v.mu.Unlock()
	for i := 1; i < len(v.numbers); i++ {
		if v.numbers[i] != v.numbers[i-1]+1 {
			return fmt.Errorf("client %s received frame %d after frame %d", v.name, v.numbers[i], v.numbers[i-1])
		}
	}
	return nil
}

// c27 shows numbered frames to clients of different speed.
func c27(r *vh.Run) {
	r.Rule("a case is a scope with 1 to 3 fast, 0 to 4 stalled, 0 to 2 lazy and 0 to 2 leaving clients, and 2 to 4 phases of 40 to 80 numbered frames of both kinds (up to 80 kB, so that the path to a stalled client is full after a few frames), shown from one goroutine at the speed of the fast clients, while clients connect and leave; every client must have a gapless sequence, the fast ones complete, the stalled ones ended; the clients of sdrainer must hand over both kinds of frames completely, also to a slow consumer; distinct: kinds of clients, and where their sequences start and end")
	n := r.N(100, 2500)
	if raceStage() {
		n = r.N(28, 400)
	}
	r.Parallel(8, n, func(i int) {
		r.Case(fmt.Sprintf("clients/%d", i), func(c *vh.C) { c27Case(c) })
	})
	r.Parallel(8, n/4, func(i int) {
		r.Case(fmt.Sprintf("flood/%d", i), func(c *vh.C) { c27Flood(c) })
	})
	r.Parallel(8, n/4, func(i int) {
		r.Case(fmt.Sprintf("consumer/%d", i), func(c *vh.C) { c27Consumers(c) })
	})
}

type producer struct {
	s      *scope.ScopeServer
	number int
	pad    []float64
	pace   func() // waits for the fast clients
}

func (p *producer) show(size int) {
	p.number++
	if size == 0 {
		p.s.ShowTimeFrame(&scope.TimeFrame{Frame: scope.Frame{Stream: "s"}, Values: map[scope.ChannelID]float64{"n": float64(p.number)}})
		return
	}
	p.s.ShowSpectralFrame(&scope.SpectralFrame{Frame: scope.Frame{Stream: "s"}, ToFrequency: float64(p.number), Values: p.pad[:size]})
}

// registered shows frames until the client receives them.
func (p *producer) registered(c *vh.C, v *viewer) {
	for attempt := 0; ; attempt++ {
		c.Reach(func() bool {
			if v.last() > 0 || v.ended() {
				return true
			}
			if p.pace != nil {
				p.pace()
			}
			p.show(0)
			vh.WaitForD(func() bool { return v.last() > 0 }, 20*time.Millisecond)
			return false
		}, nil, "client %s does not receive anything", v.name)
		if !v.ended() {
			return
		}
		if attempt >= 10 {
			c.FailWith(nil, "client %s is disconnected: %v", v.name, v.err)
			c.Abort()
		}
		v.mu.Lock()
		v.err, v.numbers = nil, nil
		v.mu.Unlock()
		v.open(c, int64(attempt))
	}
}

func c27Case(c *vh.C) {
	s := startScope(c, freeAddress())
	defer s.Stop()
	address := s.Addr().String()
	p := &producer{s: s, pad: make([]float64, 20000)}
	var fast, lazy, stalled, leaving []*viewer
	add := func(list *[]*viewer, name string) *viewer {
		v := openViewer(c, address, name)
		p.registered(c, v)
		*list = append(*list, v)
		return v
	}
	nFast, nStalled, nLazy, nLeaving := 1+c.Intn(3), c.Intn(5), c.Intn(3), c.Intn(3)
	names := []string{}
	for i := 0; i < nFast; i++ {
		names = append(names, "fast")
	}
	for i := 0; i < nStalled; i++ {
		names = append(names, "stalled")
	}
	for i := 0; i < nLazy; i++ {
		names = append(names, "lazy")
	}
	for i := 0; i < nLeaving; i++ {
		names = append(names, "leaving")
	}
	c.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	behind := func(n int) {
		for _, v := range fast {
			c.Reach(func() bool { return v.last() >= p.number-n || v.ended() }, nil, "client %s does not receive the frames beside %d stalled clients", v.name, nStalled)
			if v.ended() {
				c.FailWith(nil, "client %s keeps up, but is disconnected: %v", v.name, v.err)
				c.Abort()
			}
		}
	}
	p.pace = func() { behind(3) }
	lists := map[string]*[]*viewer{"fast": &fast, "stalled": &stalled, "lazy": &lazy, "leaving": &leaving}
	defer func() {
		for _, list := range lists {
			for _, v := range *list {
				v.set(false, false)
				v.cancel()
				v.conn.Close()
			}
		}
	}()
	for i, name := range names {
		add(lists[name], fmt.Sprint(name, i))
	}
	behind(0)
	for _, v := range lazy {
		v.set(false, true)
	}
	cut := 0
	phases := 2 + c.Intn(3)
	for phase := 0; phase < phases; phase++ {
		for _, v := range stalled {
			v.set(true, false)
		}
		frames := 40 + c.Intn(40)
		for i := 0; i < frames; i++ {
			size := 20000
			if c.Intn(6) == 0 {
				size = c.Intn(3) * 100
			}
			c.Within("showing a frame", func() { p.show(size) })
			behind(c.Intn(5))
			if len(leaving) > 0 && c.Intn(30) == 0 {
				v := leaving[0]
				leaving = leaving[1:]
				v.mu.Lock()
				v.leaving = true
				v.mu.Unlock()
				if c.Intn(2) == 0 {
					v.cancel()
				}
				v.conn.Close()
				c.Count("clients that left", 1)
				if err := v.gapless(); err != nil {
					c.FailWith(v.numbers, "%v", err)
				}
			}
			if c.Intn(60) == 0 && len(lazy) < 5 {
				v := openViewer(c, address, fmt.Sprint("new", i))
				lazy = append(lazy, v)
				c.Count("clients that came later", 1)
			}
		}
		behind(0)
		for _, v := range stalled {
			v.set(false, false)
		}
		for _, v := range stalled {
			c.Reach(v.ended, nil, "client %s did not read %d frames, but is not disconnected", v.name, frames)
			if v.last() == p.number {
				c.Failf("client %s did not read, but received all frames", v.name)
			}
			if err := v.gapless(); err != nil {
				c.FailWith(v.numbers, "%v", err)
			}
			c.Count("clients cut off", 1)
			cut++
			v.cancel()
			v.conn.Close()
		}
		n := len(stalled)
		stalled = nil
		if phase < phases-1 {
			for i := 0; i < n; i++ {
				add(&stalled, fmt.Sprint("stalled again", i))
			}
			behind(0)
		}
	}
	for _, v := range lazy {
		if v.last() == 0 && !v.ended() {
			p.registered(c, v) // it came at the end
			behind(0)
		}
	}
	for _, v := range fast {
		if err := v.gapless(); err != nil {
			c.FailWith(v.numbers, "%v", err)
		}
		if v.ended() || v.last() != p.number {
			c.Failf("client %s received %d of %d frames: %v", v.name, v.last(), p.number, v.err)
		}
		c.Count("frames received by fast clients", len(v.numbers))
	}
	key := fmt.Sprint(nFast, nStalled, nLazy, nLeaving, p.number)
	for _, v := range lazy {
		v.set(false, false)
		c.Reach(func() bool {
			return v.ended() || v.last() >= p.number
		}, nil, "client %s is neither disconnected nor does it receive the last frame", v.name)
		if err := v.gapless(); err != nil {
			c.FailWith(v.numbers, "%v", err)
		}
		key += fmt.Sprint(" ", len(v.numbers), v.last())
		c.Count("frames received by lazy clients", len(v.numbers))
		if v.ended() {
			c.Count("lazy clients cut off", 1)
		}
	}
	c.Count("frames shown", p.number)
	c.Key(key)
	c.Sample(map[string]any{"fast": nFast, "stalled": nStalled, "lazy": nLazy, "leaving": nLeaving, "frames": p.number, "cut off": cut})
}

// c27Flood shows frames as fast as possible from several goroutines, to clients that are all too slow for this.
func c27Flood(c *vh.C) {
	s := startScope(c, freeAddress())
	defer s.Stop()
	address := s.Addr().String()
	p := &producer{s: s, pad: make([]float64, 20000)}
	var viewers []*viewer
	for i := 1 + c.Intn(6); i > 0; i-- {
		v := openViewer(c, address, fmt.Sprint("client", i))
		p.registered(c, v)
		viewers = append(viewers, v)
		defer func() { v.set(false, false); v.cancel(); v.conn.Close() }()
	}
	for _, v := range viewers {
		v.set(false, c.Intn(2) == 0)
		if c.Intn(3) == 0 {
			v.set(true, false)
		}
	}
	frames := 200 + c.Intn(800)
	size := []int{0, 100, 5000}[c.Intn(3)]
	c.Within("showing frames without a pause", func() {
		for i := 0; i < frames; i++ {
			p.show(size)
		}
	})
	key := fmt.Sprint(frames, size)
	for _, v := range viewers {
		v.set(false, false)
	}
	for i := range viewers {
		v := viewers[i]
		c.Reach(func() bool { return v.ended() || v.last() >= p.number }, nil, "client %s is neither disconnected nor does it receive the last frame", v.name)
		if err := v.gapless(); err != nil {
			c.FailWith(v.numbers, "%v", err)
		}
		c.Count("frames received in a flood", len(v.numbers))
		if v.ended() {
			c.Count("clients cut off in a flood", 1)
		}
		key += fmt.Sprint(" ", len(v.numbers))
	}
	c.Count("frames shown", p.number)
	c.Key(key)
}

// c27Consumers shows numbered frames to sdrainer's own clients, whose consumers are slow from time to time.
func c27Consumers(c *vh.C) {
	s := startScope(c, freeAddress())
	defer s.Stop()
	address := s.Addr().String()
	type consumer struct {
		mu       sync.Mutex
		numbers  [2][]int
		ended    [2]bool
		slowness int
	}
	p := &producer{s: s, pad: make([]float64, 2000)}
	var consumers []*consumer
	for i := 1 + c.Intn(4); i > 0; i-- {
		client := scope.NewClient(address)
		if err := client.Open(); err != nil {
			c.FailWith(nil, "Open: %v", err)
			c.Abort()
		}
		defer client.Close()
		times, spectra, err := client.GetFrames()
		if err != nil {
			c.FailWith(nil, "GetFrames: %v", err)
			c.Abort()
		}
		k := &consumer{slowness: c.Intn(4)}
		consumers = append(consumers, k)
		receive := func(kind, number int) {
			if k.slowness > 0 && number%(16>>k.slowness) == 0 {
				time.Sleep(time.Duration(k.slowness) * time.Millisecond)
			}
			k.mu.Lock()
			k.numbers[kind] = append(k.numbers[kind], number)
			k.mu.Unlock()
		}
		end := func(kind int) {
			k.mu.Lock()
			k.ended[kind] = true
			k.mu.Unlock()
		}
		separate := c.Intn(2) == 0
		if separate {
			go func() {
				for f := range times {
					receive(0, int(f.Values["n"]))
				}
				end(0)
			}()
			go func() {
				for f := range spectra {
					receive(1, int(f.ToFrequency))
				}
				end(1)
			}()
		} else {
			go func() {
				for times != nil || spectra != nil {
					select {
					case f, ok := <-times:
						if !ok {
							times = nil
							end(0)
							break
						}
						receive(0, int(f.Values["n"]))
					case f, ok := <-spectra:
						if !ok {
							spectra = nil
							end(1)
							break
						}
						receive(1, int(f.ToFrequency))
					}
				}
			}()
		}
	}
	count := func(k *consumer) (int, int) {
		k.mu.Lock()
		defer k.mu.Unlock()
		return len(k.numbers[0]), len(k.numbers[1])
	}
	for _, k := range consumers {
		k := k
		c.Reach(func() bool {
			a, b := count(k)
			if a > 0 && b > 0 {
				return true
			}
			p.show(0)
			p.show(1)
			time.Sleep(10 * time.Millisecond)
			return false
		}, nil, "a client does not receive anything")
	}
	kinds := map[int]int{}
	frames := 100 + c.Intn(300)
	for i := 0; i < frames; i++ {
		size := c.Intn(2) * (1 + c.Intn(2000))
		c.Within("showing a frame", func() { p.show(size) })
		kinds[p.number] = min(size, 1)
		lag := c.Intn(6)
		for _, k := range consumers {
			k := k
			c.Reach(func() bool {
				k.mu.Lock()
				defer k.mu.Unlock()
				if k.ended[0] || k.ended[1] {
					return true
				}
				newest := 0
				for kind := range k.numbers {
					newest = max(newest, k.numbers[kind][len(k.numbers[kind])-1])
				}
				return newest >= p.number-lag
			}, nil, "a consumer does not receive frames anymore")
		}
		if c.Intn(10) == 0 {
			time.Sleep(time.Duration(c.Intn(3000)) * time.Microsecond)
		}
	}
	first := p.number - frames + 1
	last := [2]int{}
	for n, kind := range kinds {
		last[kind] = max(last[kind], n)
	}
	received := func(k *consumer) bool {
		k.mu.Lock()
		defer k.mu.Unlock()
		for kind := range k.numbers {
			if last[kind] > 0 && k.numbers[kind][len(k.numbers[kind])-1] < last[kind] && !k.ended[kind] {
				return false
			}
		}
		return true
	}
	key := ""
	for i, k := range consumers {
		k := k
		c.Reach(func() bool { return received(k) }, nil, "the consumer of client %d neither receives all frames, nor is it disconnected", i)
		k.mu.Lock()
		for kind := range k.numbers {
			var want []int
			for n := first; n <= p.number; n++ {
				if kinds[n] == kind {
					want = append(want, n)
				}
			}
			var got []int
			for j, n := range k.numbers[kind] {
				if j > 0 && n <= k.numbers[kind][j-1] {
					c.FailWith(k.numbers[kind], "client %d provides frame %d after frame %d", i, n, k.numbers[kind][j-1])
				}
				if n >= first {
					got = append(got, n)
				}
			}
			if k.ended[0] || k.ended[1] {
				want = want[:min(len(got), len(want))]
				c.Count("clients of slow consumers cut off", 1)
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				c.FailWith(map[string]any{"received": got, "shown": want}, "client %d provides %d of %d frames of kind %d to a consumer of slowness %d", i, len(got), len(want), kind, k.slowness)
			}
			c.Count("frames received by consumers", len(got))
			key += fmt.Sprint(" ", k.slowness, len(k.numbers[kind]))
		}
		k.mu.Unlock()
	}
	c.Key(key)
}
