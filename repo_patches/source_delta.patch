From 03183b95605b5307e580c1b63ca6a0f5b5351962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 01/47] fix: Peak.ContainsBin must report bins inside of the
 peak

The comparison was inverted: only the single bin of a one-bin-wide peak
was reported as contained, and for wider peaks no bin at all.
---
 dsp/fft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 2ee36ec..377e0f6 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -209,7 +209,7 @@ func (p Peak[T, F]) WidthHz() F {
 
 // ContainsBin indicates if the given bin is within this peak.
 func (p Peak[T, F]) ContainsBin(bin int) bool {
-	return p.From >= bin && p.To <= bin
+	return p.From <= bin && bin <= p.To
 }
 
 func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
-- 
2.43.0


From a8693c908a7c7a35cda7e4cfd68ea140543e2fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 02/47] fix: Block.Max must not look at values outside of the
 given section

The search started with the first value of the whole block, which won
whenever it was higher than everything in the given section.
---
 dsp/fft.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 377e0f6..991f2fc 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -163,8 +163,8 @@ func (b Block[T]) Mean(from, to int) T {
 
 // Max imum value in the given section of this block.
 func (b Block[T]) Max(from, to int) (T, int) {
-	maxValue := b[0]
-	maxI := 0
+	maxValue := b[from]
+	maxI := from
 	for i := from; i <= to; i++ {
 		if maxValue < b[i] {
 			maxValue = b[i]
-- 
2.43.0


From 9b8388a51692d240ad89b2515eaa76a794e62044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:40 +0000
Subject: [PATCH 03/47] fix: map a frequency to the nearest bin

A bin covers half a bin size to both sides of its center frequency, but
the bin index was truncated. The upper half of each bin's range was
mapped to the bin and the lower half to its left neighbor, and due to the
truncation of the center frequency to full Hz most bins did not even
survive the round trip bin -> center frequency -> bin.
---
 dsp/fft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 991f2fc..6111e07 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -130,7 +130,7 @@ func (m *FrequencyMapping[F]) BinToFrequency(bin int, location BinLocation) F {
 }
 
 func (m *FrequencyMapping[F]) FrequencyToBin(frequency F) int {
-	bin := int((float64(frequency) - float64(m.fromFrequency)) / m.binSize)
+	bin := int(math.Round((float64(frequency) - float64(m.fromFrequency)) / m.binSize))
 	return max(0, min(bin, m.blockSize-1))
 }
 
-- 
2.43.0


From 8b2f3f6501cce4daba92c3328ec5ef37e6774be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 04/47] fix: keep the interpolated peak center within the
 peak's bin

The quadratic interpolation divided by zero on a plateau, which resulted
in a signal frequency of NaN/Inf converted to an integer. It also used the
absolute values of the spectrum, which turns a maximum of negative dB
values into a minimum and moved the result away from the bin by an
arbitrary distance.
---
 dsp/fft.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 6111e07..5002f6a 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -296,14 +296,19 @@ func PeakCenterCorrection[T, F Number](bin int, spectrum Block[T]) BinLocation {
 	}
 
 	value := func(i int) float64 {
-		return math.Abs(float64(spectrum[i]))
+		return float64(spectrum[i])
 	}
 
 	// quadratic interpolation
 	y1 := value(bin - 1)
 	y2 := value(bin)
 	y3 := value(bin + 1)
-	result := (y3 - y1) / (2 * (2*y2 - y1 - y3))
+	curvature := 2*y2 - y1 - y3
+	if !(curvature > 0) || math.IsInf(curvature, 0) {
+		// not a local maximum, e.g. a plateau; there is nothing to interpolate
+		return BinCenter
+	}
+	result := (y3 - y1) / (2 * curvature)
 
-	return BinLocation(result)
+	return BinLocation(max(float64(BinFrom), min(result, float64(BinTo))))
 }
-- 
2.43.0


From 85e00959a1c45cea66a28ca3af9ee18a2d13b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:22 +0000
Subject: [PATCH 05/47] fix: FindNoiseFloor must cope with any edge width

A negative edge width (the IF range reported by the SDR is larger than the
sample rate) caused a panic, a large one resulted in NaN for the variance.
The variance also took the first bin after the selected window into
account.
---
 dsp/fft.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 5002f6a..ea6483b 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -213,7 +213,9 @@ func (p Peak[T, F]) ContainsBin(bin int) bool {
 }
 
 func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
-	windowSize := (len(psd) - 2*edgeWidth) / 10
+	// the edges must leave something to work with, no matter which edge width is configured
+	edgeWidth = max(0, min(edgeWidth, (len(psd)-10)/2))
+	windowSize := max(1, (len(psd)-2*edgeWidth)/10)
 	minValue := float64(psd[0])
 	var sum float64
 	count := 0
@@ -234,7 +236,7 @@ func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
 				first = false
 				resultMean = mean
 				resultFrom = from
-				resultTo = i
+				resultTo = i - 1
 			}
 			sum = 0
 		}
-- 
2.43.0


From c9dfcf1f1f1f24377e3ac4fc06fe8a92cc86c2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:29 +0000
Subject: [PATCH 06/47] fix: RollingVariance must provide the variance of the
 current window

The summands of the variance were calculated with the mean at the time a
value was inserted and removed with another mean, so the result was not
the variance of the values in the window and could even become negative.
---
 dsp/dsp.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/dsp/dsp.go b/dsp/dsp.go
index 56015cb..5c74897 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -187,10 +187,7 @@ type RollingVariance[T Number] struct {
 	n      T
 	next   int
 
-	sumForMean     T
-	mean           T
-	sumForVariance T
-	variance       T
+	variance T
 }
 
 // NewRollingVariance with size n.
@@ -203,19 +200,20 @@ func NewRollingVariance[T Number](n int) *RollingVariance[T] {
 
 // Put a new value into the rolling window and get the new variance back.
 func (v *RollingVariance[T]) Put(value T) T {
-	v.sumForMean -= v.values[v.next]
-	oldSummand := (v.values[v.next] - v.mean)
-	v.sumForVariance -= oldSummand * oldSummand
-
 	v.values[v.next] = value
+	v.next = (v.next + 1) % len(v.values)
 
-	v.sumForMean += v.values[v.next]
-	v.mean = v.sumForMean / v.n
-	newSummand := (v.values[v.next] - v.mean)
-	v.sumForVariance += newSummand * newSummand
-	v.variance = v.sumForVariance / v.n
+	var sum T
+	for _, value := range v.values {
+		sum += value
+	}
+	mean := sum / v.n
 
-	v.next = (v.next + 1) % len(v.values)
+	sum = 0
+	for _, value := range v.values {
+		sum += (value - mean) * (value - mean)
+	}
+	v.variance = sum / v.n
 
 	return v.variance
 }
@@ -229,9 +227,6 @@ func (v *RollingVariance[T]) Get() T {
 func (v *RollingVariance[T]) Reset() {
 	clear(v.values)
 	v.next = 0
-	v.sumForMean = 0
-	v.mean = 0
-	v.sumForVariance = 0
 	v.variance = 0
 }
 
-- 
2.43.0


From d132b405ba1a6789724ab30cd87f8956ebaed3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 07/47] fix: RollingMean must recover from infinite and NaN
 values

One block of digital silence has an infinite dB value. The running sum
became NaN when this value left the window and stayed NaN forever: the
receiver did not detect any signal anymore.
---
 dsp/dsp.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dsp/dsp.go b/dsp/dsp.go
index 5c74897..3135057 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -236,8 +236,7 @@ type RollingMean[T Number] struct {
 	n      T
 	next   int
 
-	sumForMean T
-	mean       T
+	mean T
 }
 
 // NewRollingMean with size n.
@@ -250,15 +249,17 @@ func NewRollingMean[T Number](n int) *RollingMean[T] {
 
 // Put a new value into the rolling window and get the new mean back.
 func (v *RollingMean[T]) Put(value T) T {
-	v.sumForMean -= v.values[v.next]
-
 	v.values[v.next] = value
-
-	v.sumForMean += v.values[v.next]
-	v.mean = v.sumForMean / v.n
-
 	v.next = (v.next + 1) % len(v.values)
 
+	// sum up the whole window: subtracting the removed value from a running sum accumulates
+	// rounding errors and never recovers from a single infinite or NaN value
+	var sum T
+	for _, value := range v.values {
+		sum += value
+	}
+	v.mean = sum / v.n
+
 	return v.mean
 }
 
@@ -271,7 +272,6 @@ func (v *RollingMean[T]) Get() T {
 func (v *RollingMean[T]) Reset() {
 	clear(v.values)
 	v.next = 0
-	v.sumForMean = 0
 	v.mean = 0
 }
 
-- 
2.43.0


From a39d519b60091fcb719a3a7a04b71eddde7c8e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:36 +0000
Subject: [PATCH 08/47] fix: resetting the CW decoder must forget the previous
 signal

The last signal state, the marker for an invalid character, and the state
of the debouncer survived a reset and had an influence on the decoding of
the next signal.
---
 cw/decode.go   | 2 ++
 cw/spectral.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/cw/decode.go b/cw/decode.go
index ed9c763..273da9c 100644
--- a/cw/decode.go
+++ b/cw/decode.go
@@ -172,6 +172,8 @@ func (d *Decoder) Reset() {
 func (d *Decoder) Clear() {
 	d.decoding = false
 	d.currentChar.clear()
+	d.currentCharInvalid = false
+	d.lastState = false
 	d.ticks = 0
 	d.onStart = 0
 	d.offStart = 0
diff --git a/cw/spectral.go b/cw/spectral.go
index 086fa0a..e48dbfc 100644
--- a/cw/spectral.go
+++ b/cw/spectral.go
@@ -42,6 +42,7 @@ func (d *SpectralDemodulator[M, F]) SetScope(scope scope.Scope) {
 }
 
 func (d *SpectralDemodulator[M, F]) Reset() {
+	d.signalDebouncer = dsp.NewBoolDebouncer(d.signalDebouncer.Threshold())
 	d.decoder.Reset()
 }
 
-- 
2.43.0


From 82ebddcd75e2c36e66a484b8b48ffb7772813726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 09/47] fix: a carrier must not invalidate the following
 character

An overlong signal between two characters marked the (empty) current
character as invalid. The marker was kept beyond the gap after this signal
and the next, perfectly keyed character was dropped.
---
 cw/decode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cw/decode.go b/cw/decode.go
index 273da9c..bcfb81b 100644
--- a/cw/decode.go
+++ b/cw/decode.go
@@ -317,6 +317,7 @@ func (d *Decoder) appendSymbol(s cw.Symbol) {
 func (d *Decoder) decodeCurrentChar() {
 	if d.currentChar.empty() {
 		// fmt.Print("X") // TODO REMOVE THIS
+		d.currentCharInvalid = false
 		return
 	}
 	if d.currentCharInvalid {
-- 
2.43.0


From a48678696bf74c786c76d7205b26e03ff0c265c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 10/47] fix: make the controls and the shutdown of
 AudioDemodulator reliable

The getters did not wait for the result and returned 0. Any call after or
concurrent to Close could block forever, as well as Write with a full
buffer. Concurrent calls of Close could close the channel twice. The
channel count was read without synchronization.
---
 cw/audio.go | 66 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/cw/audio.go b/cw/audio.go
index a75cfa8..e223301 100644
--- a/cw/audio.go
+++ b/cw/audio.go
@@ -4,6 +4,8 @@ import (
 	"io"
 	"log"
 	"math"
+	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/ftl/sdrainer/dsp"
@@ -24,12 +26,13 @@ type AudioDemodulator struct {
 	decoder      *Decoder
 	maxScale     float64
 	scale        float32
-	channelCount int
+	channelCount atomic.Int32
 
-	in     chan float32
-	op     chan func()
-	close  chan struct{}
-	closed chan struct{}
+	in        chan float32
+	op        chan func()
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
 
 	scope scope.Scope
 }
@@ -39,17 +42,17 @@ func NewAudioDemodulator(out io.Writer, pitch float64, sampleRate int, bufferSiz
 		bufferSize = defaultBufferSize
 	}
 	result := &AudioDemodulator{
-		filter:       dsp.NewDefaultGoertzel(pitch, sampleRate),
-		debouncer:    dsp.NewBoolDebouncer(defaultDebounceThreshold),
-		maxScale:     defaultMaxScale,
-		scale:        1,
-		channelCount: 1,
-		in:           make(chan float32, bufferSize),
-		op:           make(chan func()),
-		close:        make(chan struct{}),
-		closed:       make(chan struct{}),
-		scope:        scope.NewNullScope(),
+		filter:    dsp.NewDefaultGoertzel(pitch, sampleRate),
+		debouncer: dsp.NewBoolDebouncer(defaultDebounceThreshold),
+		maxScale:  defaultMaxScale,
+		scale:     1,
+		in:        make(chan float32, bufferSize),
+		op:        make(chan func()),
+		close:     make(chan struct{}),
+		closed:    make(chan struct{}),
+		scope:     scope.NewNullScope(),
 	}
+	result.channelCount.Store(1)
 	result.decoder = NewDecoder(out, sampleRate, result.filter.Blocksize())
 
 	go result.run()
@@ -58,13 +61,10 @@ func NewAudioDemodulator(out io.Writer, pitch float64, sampleRate int, bufferSiz
 }
 
 func (d *AudioDemodulator) Close() {
-	select {
-	case <-d.close:
-		return
-	default:
+	d.closeOnce.Do(func() {
 		close(d.close)
-		<-d.closed
-	}
+	})
+	<-d.closed
 }
 
 func (d *AudioDemodulator) SetScope(scope scope.Scope) {
@@ -95,9 +95,7 @@ func (d *AudioDemodulator) SetScale(scale float64) {
 }
 
 func (d *AudioDemodulator) SetChannelCount(channelCount int) {
-	d.do(func() {
-		d.channelCount = channelCount
-	})
+	d.channelCount.Store(int32(channelCount))
 }
 
 func (d *AudioDemodulator) SetDebounceThreshold(threshold int) {
@@ -148,21 +146,31 @@ func (d *AudioDemodulator) Blocksize() int {
 
 func (d *AudioDemodulator) Write(buf []float32) (int, error) {
 	n := 0
+	channelCount := int(d.channelCount.Load())
 	for i, sample := range buf {
-		if (i % d.channelCount) == 0 {
-			d.in <- sample
+		if (i % channelCount) == 0 {
+			select {
+			case d.in <- sample:
+			case <-d.close:
+				return n, io.ErrClosedPipe
+			}
 		}
 		n++
 	}
 	return n, nil
 }
 
+// do executes the given function in the context of the demodulator's goroutine and waits for its completion.
 func (d *AudioDemodulator) do(f func()) {
+	executed := make(chan struct{})
+	op := func() {
+		defer close(executed)
+		f()
+	}
 	select {
 	case <-d.closed:
-		return
-	default:
-		d.op <- f
+	case d.op <- op:
+		<-executed
 	}
 }
 
-- 
2.43.0


From 63f8253326ab0a0f9d3211c670a464df880b59eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:24 +0000
Subject: [PATCH 11/47] fix: decode callsigns without the DXCC and SCP data

If the reference data is neither available locally nor for download, the
finder interfaces contained a nil pointer and were therefore not equal to
nil. The first decoded callsign caused a panic.
---
 rx/text_processor.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 822106c..3ed60da 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -91,7 +91,8 @@ func NewTextProcessor(out io.Writer, clock Clock, reporter CallsignReporter) *Te
 	return result
 }
 
-func setupDXCCFinder() *dxcc.Prefixes {
+// setupDXCCFinder returns nil if the DXCC prefixes are not available.
+func setupDXCCFinder() dxccFinder {
 	localFilename, err := dxcc.LocalFilename()
 	if err != nil {
 		log.Print(err)
@@ -113,7 +114,8 @@ func setupDXCCFinder() *dxcc.Prefixes {
 	return result
 }
 
-func setupSCPFinder() *scp.Database {
+// setupSCPFinder returns nil if the Supercheck database is not available.
+func setupSCPFinder() scpFinder {
 	localFilename, err := scp.LocalFilename()
 	if err != nil {
 		log.Print(err)
-- 
2.43.0


From 8efc83a27e75eab749aadc6d595befb8036ab01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:32 +0000
Subject: [PATCH 12/47] fix: detach a listener only after its text processor is
 stopped

The text processor reports callsigns with the frequency of the listener's
peak in its own goroutine. Removing the peak before this goroutine is
stopped is a data race and a potential nil pointer dereference.
---
 rx/listener.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rx/listener.go b/rx/listener.go
index 8c1ef9d..02205a2 100644
--- a/rx/listener.go
+++ b/rx/listener.go
@@ -98,9 +98,9 @@ func (l *Listener[T, F]) Attached() bool {
 
 func (l *Listener[T, F]) Detach() {
 	frequency := l.peak.SignalFrequency
-	l.peak = nil
 
-	l.textProcessor.Stop()
+	l.textProcessor.Stop() // the text processor uses the peak until it is stopped
+	l.peak = nil
 	l.reporter.ListenerDeactivated(l.id, frequency)
 	// log.Printf("\ndemodulation stopped\n")
 }
-- 
2.43.0


From 1cbd91a958fa9dc26ad708f36facfc6d95b537f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 13/47] fix: apply the signal debounce setting to new listeners

The setting was only propagated to the listeners that were already bound,
i.e. usually to none of them. Every listener used the default value.
---
 rx/receiver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rx/receiver.go b/rx/receiver.go
index 71516e4..1a1f631 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -23,6 +23,7 @@ const (
 
 	defaultPeakThreshold    = 15
 	defaultEdgeWidth        = 70
+	defaultSignalDebounce   = 1
 	defaultListenerPoolSize = 30
 )
 
@@ -86,6 +87,7 @@ type Receiver[T, F dsp.Number] struct {
 	listeners         *ListenerPool[T, F]
 	silenceTimeout    time.Duration
 	attachmentTimeout time.Duration
+	signalDebounce    int
 
 	scope scope.Scope
 }
@@ -103,6 +105,7 @@ func NewReceiver[T, F dsp.Number](id string, mode ReceiverMode, clock Clock) *Re
 		edgeWidth:         defaultEdgeWidth,
 		silenceTimeout:    defaultSilenceTimeout,
 		attachmentTimeout: defaultAttachmentTimeout,
+		signalDebounce:    defaultSignalDebounce,
 
 		fft: dsp.NewFFT[T](),
 		out: NewChannelWriter(os.Stdout),
@@ -123,6 +126,7 @@ func (r *Receiver[T, F]) newListener(id string) *Listener[T, F] {
 	result := NewListener[T, F](id, r.out.Channel(id), r.clock, r, r.sampleRate, r.blockSize)
 	result.SetAttachmentTimeout(r.attachmentTimeout)
 	result.SetSilenceTimeout(r.silenceTimeout)
+	result.SetSignalDebounce(r.signalDebounce)
 	result.SetScope(r.scope)
 	return result
 }
@@ -246,6 +250,7 @@ func (r *Receiver[T, F]) SetAttachmentTimeout(timeout time.Duration) {
 
 func (r *Receiver[T, F]) SetSignalDebounce(debounce int) {
 	r.do(func() {
+		r.signalDebounce = debounce
 		r.listeners.ForEach(func(l *Listener[T, F]) {
 			l.SetSignalDebounce(debounce)
 		})
-- 
2.43.0


From 020b53cf8755a94285c99ccd03f8d8441d17c79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:01 +0000
Subject: [PATCH 14/47] fix: restarting the text processor must forget the
 previous text

The search point of the text window was not reset, so the beginning of
the next text was not searched for callsigns. Text that was still queued
when the text processor was stopped became part of the next text.
---
 rx/text_processor.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 3ed60da..d5e3f52 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -182,6 +182,7 @@ func (p *TextProcessor) sync() {
 
 func (p *TextProcessor) Restart() {
 	p.Stop()
+	p.discardPending()
 	p.lastWrite = p.clock.Now()
 	p.lastBestMatch = callsign.NoCallsign
 	p.window.Reset()
@@ -189,6 +190,17 @@ func (p *TextProcessor) Restart() {
 	p.Start()
 }
 
+// discardPending removes all operations that were not executed before the text processor was stopped.
+func (p *TextProcessor) discardPending() {
+	for {
+		select {
+		case <-p.op:
+		default:
+			return
+		}
+	}
+}
+
 func (p *TextProcessor) LastWrite() time.Time {
 	return p.lastWrite
 }
@@ -365,8 +377,9 @@ func (w *textWindow) String() string {
 func (w *textWindow) Reset() {
 	for i := range w.window {
 		w.window[i] = w.window[i][:0]
-		w.currentWindow = 0
 	}
+	w.currentWindow = 0
+	w.searchPoint = 0
 }
 
 func (w *textWindow) Write(bytes []byte) (n int, err error) {
-- 
2.43.0


From 618d9f75e153a3148b3f42a8143f1a289cfa16bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:09 +0000
Subject: [PATCH 15/47] fix: collect all callsigns of a text chunk

Only the first callsign in each chunk was collected, the others were
usually shifted out of the text window before they could be found. The
result depended on the segmentation of the text.
---
 rx/text_processor.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index d5e3f52..54872b7 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -242,8 +242,11 @@ func (p *TextProcessor) findNextCallsign(bytes []byte) {
 			panic(err)
 		}
 
-		candidate, found := p.window.FindNext(callsignExp, false)
-		if found {
+		for {
+			candidate, found := p.window.FindNext(callsignExp, false)
+			if !found {
+				break
+			}
 			p.collectCallsign(candidate)
 		}
 
-- 
2.43.0


From e84e7c1d5f12622c63e8513e2d568d49f7771a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 16/47] fix: make starting and stopping the receiver safe for
 concurrent use

Stop released the listeners while the run loop was still working with
them, and closed the channels that are used by IQData and the setters in
other goroutines: depending on the timing, the program paniced or blocked
forever when the receiver was stopped.
---
 rx/receiver.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/rx/receiver.go b/rx/receiver.go
index 1a1f631..75142ae 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"math"
 	"os"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/dsp"
@@ -75,6 +76,7 @@ type Receiver[T, F dsp.Number] struct {
 	centerFrequency F
 	vfoOffset       F
 
+	lifecycle        sync.RWMutex // guards the transitions between started and stopped
 	in               chan []T
 	op               chan func()
 	stop             chan struct{}
@@ -132,6 +134,8 @@ func (r *Receiver[T, F]) newListener(id string) *Listener[T, F] {
 }
 
 func (r *Receiver[T, F]) Start(sampleRate int, blockSize int) {
+	r.lifecycle.Lock()
+	defer r.lifecycle.Unlock()
 	if r.in != nil {
 		return
 	}
@@ -150,16 +154,16 @@ func (r *Receiver[T, F]) Start(sampleRate int, blockSize int) {
 }
 
 func (r *Receiver[T, F]) Stop() {
+	r.lifecycle.Lock()
+	defer r.lifecycle.Unlock()
 	if r.in == nil {
 		return
 	}
 
-	r.listeners.Reset()
-
 	close(r.stop)
 	<-r.stopped
-	close(r.in)
-	close(r.op)
+
+	r.listeners.Reset()
 
 	r.stop = nil
 	r.stopped = nil
@@ -168,6 +172,12 @@ func (r *Receiver[T, F]) Stop() {
 }
 
 func (r *Receiver[T, F]) do(f func()) {
+	if r.enqueue(f) {
+		return
+	}
+
+	r.lifecycle.Lock()
+	defer r.lifecycle.Unlock()
 	if r.op == nil {
 		f()
 	} else {
@@ -175,6 +185,17 @@ func (r *Receiver[T, F]) do(f func()) {
 	}
 }
 
+// enqueue the given function if the receiver is running.
+func (r *Receiver[T, F]) enqueue(f func()) bool {
+	r.lifecycle.RLock()
+	defer r.lifecycle.RUnlock()
+	if r.op == nil {
+		return false
+	}
+	r.op <- f
+	return true
+}
+
 func (r *Receiver[T, F]) AddReporter(reporter Reporter[F]) {
 	r.reporters = append(r.reporters, reporter)
 }
@@ -318,6 +339,8 @@ func (r *Receiver[T, F]) SetVFOOffset(offset F) {
 }
 
 func (r *Receiver[T, F]) IQData(sampleRate int, data []T) {
+	r.lifecycle.RLock()
+	defer r.lifecycle.RUnlock()
 	if r.in == nil {
 		return
 	}
-- 
2.43.0


From d32f4e0327cf6f4e236aa230ae047d25c70efbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:35 +0000
Subject: [PATCH 17/47] fix: CenterFrequency must not block on a stopped
 receiver

---
 rx/receiver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/receiver.go b/rx/receiver.go
index 75142ae..0c14022 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -288,7 +288,7 @@ func (r *Receiver[T, F]) SetCenterFrequency(frequency F) {
 }
 
 func (r *Receiver[T, F]) CenterFrequency() F {
-	result := make(chan F)
+	result := make(chan F, 1)
 	r.do(func() {
 		result <- r.centerFrequency
 	})
-- 
2.43.0


From d950a1b2e1dc318a404c32452e03b1352ec58913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 18/47] fix: tune to the current VFO frequency when the
 receiver is started

A TCI device reports its frequencies before it reports to be ready, i.e.
before the receiver is started. In decode mode the receiver did not decode
anything until the VFO was moved for the first time.
---
 rx/receiver.go | 72 ++++++++++++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/rx/receiver.go b/rx/receiver.go
index 0c14022..ad772a5 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -75,6 +75,7 @@ type Receiver[T, F dsp.Number] struct {
 	blockSize       int
 	centerFrequency F
 	vfoOffset       F
+	vfoKnown        bool
 
 	lifecycle        sync.RWMutex // guards the transitions between started and stopped
 	in               chan []T
@@ -298,44 +299,48 @@ func (r *Receiver[T, F]) CenterFrequency() F {
 func (r *Receiver[T, F]) SetVFOOffset(offset F) {
 	r.do(func() {
 		r.vfoOffset = offset
+		r.vfoKnown = true
 		if r.in == nil {
 			return
 		}
+		r.tuneToVFO()
+	})
+}
 
-		switch r.mode {
-		case DecodeMode:
-			if !r.listeners.Available() {
-				r.listeners.Reset()
-			}
-			listener, ok := r.listeners.BindNext()
-			if !ok {
-				log.Printf("cannot bind listener to VFO")
-				return
-			}
+func (r *Receiver[T, F]) tuneToVFO() {
+	switch r.mode {
+	case DecodeMode:
+		if !r.listeners.Available() {
+			r.listeners.Reset()
+		}
+		listener, ok := r.listeners.BindNext()
+		if !ok {
+			log.Printf("cannot bind listener to VFO")
+			return
+		}
 
-			freq := r.vfoOffset + r.centerFrequency
-			peak := r.newPeakCenteredOnFrequency(freq)
-			peak.SignalValue = 80
-			r.peaks.ForcePut(&peak)
-			r.peaks.Activate(&peak)
-			listener.Attach(&peak)
-			r.out.SetActive(listener.ID())
-		case StrainMode:
-			freq := r.vfoOffset + r.centerFrequency
-			bin := r.frequencyMapping.FrequencyToBin(freq)
-			found := false
-			r.out.SetActive("")
-			r.listeners.ForEach(func(l *Listener[T, F]) {
-				if l.Peak().ContainsBin(bin) {
-					r.out.SetActive(l.ID())
-					found = true
-				}
-			})
-			if found {
-				fmt.Fprintln(r.out)
+		freq := r.vfoOffset + r.centerFrequency
+		peak := r.newPeakCenteredOnFrequency(freq)
+		peak.SignalValue = 80
+		r.peaks.ForcePut(&peak)
+		r.peaks.Activate(&peak)
+		listener.Attach(&peak)
+		r.out.SetActive(listener.ID())
+	case StrainMode:
+		freq := r.vfoOffset + r.centerFrequency
+		bin := r.frequencyMapping.FrequencyToBin(freq)
+		found := false
+		r.out.SetActive("")
+		r.listeners.ForEach(func(l *Listener[T, F]) {
+			if l.Peak().ContainsBin(bin) {
+				r.out.SetActive(l.ID())
+				found = true
 			}
+		})
+		if found {
+			fmt.Fprintln(r.out)
 		}
-	})
+	}
 }
 
 func (r *Receiver[T, F]) IQData(sampleRate int, data []T) {
@@ -378,6 +383,11 @@ func (r *Receiver[T, F]) run() {
 
 	detachedListeners := make([]*Listener[T, F], r.listeners.Size())
 
+	if r.vfoKnown {
+		// the VFO was set while the receiver was stopped
+		r.tuneToVFO()
+	}
+
 	for {
 		select {
 		case <-r.stop:
-- 
2.43.0


From 3b2b808bdd238b9d30b1f9d329f4de716b311205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 19/47] fix: do not spot on outdated frequencies when the
 center frequency changes

The listeners stayed attached to their bins and reported any signal that
was heard there with the frequency that the bin had before the change.
---
 rx/receiver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rx/receiver.go b/rx/receiver.go
index ad772a5..6628cc2 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -281,10 +281,16 @@ func (r *Receiver[T, F]) SetSignalDebounce(debounce int) {
 
 func (r *Receiver[T, F]) SetCenterFrequency(frequency F) {
 	r.do(func() {
+		changed := r.centerFrequency != frequency
 		r.centerFrequency = frequency
 		if r.frequencyMapping != nil {
 			r.frequencyMapping.SetCenterFrequency(frequency)
 		}
+		if changed && r.in != nil && r.mode == StrainMode {
+			// the known signals are not at their frequency anymore
+			r.listeners.Reset()
+			r.peaks.Reset()
+		}
 	})
 }
 
-- 
2.43.0


From caa21baeedd0cee227eecd6d4bfbad098a11c631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:29 +0000
Subject: [PATCH 20/47] fix: write the complete message to a telnet connection

After a short write, the rest of the message was only written if it was
longer than the part that was already written.
---
 telnet/telnet.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 4b11e48..95f8db3 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -299,17 +299,12 @@ func (c *Connection) readLoop() {
 }
 
 func (c *Connection) writeAll(bytes []byte) error {
-	n := 0
-	buffer := bytes
-	for n < len(buffer) {
-		var err error
-		n, err = c.conn.Write(buffer)
+	for len(bytes) > 0 {
+		n, err := c.conn.Write(bytes)
 		if err != nil {
 			return err
 		}
-		if n < len(buffer) {
-			buffer = buffer[n:]
-		}
+		bytes = bytes[n:]
 	}
 	return nil
 }
-- 
2.43.0


From b82240346b1eca90e1843a46a6128663baa3960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:36 +0000
Subject: [PATCH 21/47] fix: make telnet spotting safe for concurrent use and
 after Stop

The map with the last spots and the silence period were accessed without
synchronization, concurrent spots of the same station were announced
several times. Spotting blocked forever after the server was stopped.
---
 telnet/telnet.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 95f8db3..3a29994 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -9,6 +9,7 @@ import (
 	"log"
 	"net"
 	"os"
+	"sync"
 	"time"
 )
 
@@ -35,6 +36,7 @@ type Server struct {
 
 	connections []*Connection
 
+	spotLock      sync.Mutex
 	lastSpots     map[spotHash]time.Time
 	silencePeriod time.Duration
 
@@ -149,14 +151,21 @@ func (s *Server) Stop() {
 }
 
 func (s *Server) SetSilencePeriod(silencePeriod time.Duration) {
+	s.spotLock.Lock()
+	defer s.spotLock.Unlock()
 	s.silencePeriod = silencePeriod
 }
 
 func (s *Server) Spot(callsign string, frequency float64, msg string, timestamp time.Time) {
 	hash := newSpotHash(callsign, frequency)
+	s.spotLock.Lock()
+	defer s.spotLock.Unlock()
 	if s.shouldAnnounce(hash, timestamp) {
-		s.msg <- []byte(s.formatSpotMessage(callsign, frequency, msg, timestamp))
-		s.registerSpot(hash, timestamp)
+		select {
+		case s.msg <- []byte(s.formatSpotMessage(callsign, frequency, msg, timestamp)):
+			s.registerSpot(hash, timestamp)
+		case <-s.closed:
+		}
 	}
 }
 
-- 
2.43.0


From df71db54b4e92a3ef9f9ab5830c1773f3328c8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 22/47] fix: release the port when the telnet server is stopped

The listener was never closed, so the port could not be used again and
clients could still connect to a server that did not answer. Concurrent
calls of Stop could close the channel twice.
---
 telnet/telnet.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 3a29994..e748dd9 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -40,9 +40,10 @@ type Server struct {
 	lastSpots     map[spotHash]time.Time
 	silencePeriod time.Duration
 
-	msg    chan []byte
-	close  chan struct{}
-	closed chan struct{}
+	msg       chan []byte
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
 }
 
 func NewServer(address string, mycall string, version string) (*Server, error) {
@@ -75,6 +76,7 @@ func NewServer(address string, mycall string, version string) (*Server, error) {
 
 func (s *Server) run() {
 	defer close(s.closed)
+	defer s.listener.Close()
 	welcome := fmt.Sprintf("SDRainer Version %s\n", s.version)
 
 	removeConnections := make([]int, 0, 10)
@@ -141,13 +143,10 @@ func (s *Server) removeConnection(index int) {
 }
 
 func (s *Server) Stop() {
-	select {
-	case <-s.closed:
-		return
-	default:
+	s.closeOnce.Do(func() {
 		close(s.close)
-		<-s.closed
-	}
+	})
+	<-s.closed
 }
 
 func (s *Server) SetSilencePeriod(silencePeriod time.Duration) {
-- 
2.43.0


From a6c11507ab34adb642aa3c15a4d94c5440eb17f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:49 +0000
Subject: [PATCH 23/47] fix: a stalled telnet client must not block the server

As soon as the TCP buffers of one client that does not read were filled,
no other client got any more spots, the spotting process was blocked, and
the server could not be stopped. Writing to a connection that was just
about to be closed had the same effect. The user name was accessed without
synchronization.
---
 telnet/telnet.go | 76 ++++++++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 28 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index e748dd9..8746a40 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -10,6 +10,7 @@ import (
 	"net"
 	"os"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -17,6 +18,7 @@ const (
 	newConnectionDeadline     = 100 * time.Millisecond
 	connectionKeepAlivePeriod = 30 * time.Second
 	readBufferSize            = 1024
+	sendQueueSize             = 1000
 	defaultSpotSilencePeriod  = 4 * time.Minute
 )
 
@@ -185,7 +187,10 @@ func (s *Server) formatSpotMessage(callsign string, frequency float64, msg strin
 	return fmt.Sprintf("%-16s% 6.1f  %-13s%-31s%-4sz\n", prefix, frequency/1000.0, callsign, msg, timestamp.Format("1504"))
 }
 
-var ErrClosed = errors.New("connection already closed")
+var (
+	ErrClosed  = errors.New("connection already closed")
+	ErrStalled = errors.New("connection stalled")
+)
 
 type Prompt struct {
 	Question string
@@ -200,16 +205,17 @@ type Connection struct {
 	currentPrompt *Prompt
 	currentAnswer string
 
-	close  chan struct{}
-	closed chan struct{}
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
 
-	user string
+	user atomic.Value
 }
 
 func NewConnection(conn io.ReadWriteCloser, welcome string) *Connection {
 	result := &Connection{
 		conn:  conn,
-		msg:   make(chan []byte, 1),
+		msg:   make(chan []byte, sendQueueSize),
 		input: make(chan []byte, 1),
 
 		currentAnswer: "",
@@ -228,12 +234,7 @@ func NewConnection(conn io.ReadWriteCloser, welcome string) *Connection {
 
 func (c *Connection) run() {
 	defer close(c.closed)
-	defer func() {
-		err := c.conn.Close()
-		if err != nil {
-			log.Printf("close %s: %v", c.user, err)
-		}
-	}()
+	defer c.shutdown()
 
 	ignoreInputPrompt := &Prompt{
 		Question: "",
@@ -244,14 +245,14 @@ func (c *Connection) run() {
 	inputCallsignPrompt := &Prompt{
 		Question: "Enter your callsign: ",
 		Answer: func(answer string) (string, *Prompt) {
-			c.user = answer
-			return fmt.Sprintf("welcome %s\n", c.user), ignoreInputPrompt
+			c.user.Store(answer)
+			return fmt.Sprintf("welcome %s\n", answer), ignoreInputPrompt
 		},
 	}
 
 	err := c.startPrompt(inputCallsignPrompt)
 	if err != nil {
-		log.Printf("%s: %v", c.user, err)
+		log.Printf("%s: %v", c, err)
 	}
 
 	for {
@@ -261,7 +262,7 @@ func (c *Connection) run() {
 		case bytes := <-c.msg:
 			err := c.writeAll(bytes)
 			if err != nil {
-				log.Printf("%s: %v", c.user, err)
+				log.Printf("%s: %v", c, err)
 				return
 			}
 		case bytes := <-c.input:
@@ -270,14 +271,14 @@ func (c *Connection) run() {
 				if response != "" {
 					err := c.writeAll([]byte(response))
 					if err != nil {
-						log.Printf("%s: %v", c.user, err)
+						log.Printf("%s: %v", c, err)
 						return
 					}
 				}
 
 				err := c.startPrompt(nextPrompt)
 				if err != nil {
-					log.Printf("%s: %v", c.user, err)
+					log.Printf("%s: %v", c, err)
 					continue
 				}
 			}
@@ -292,7 +293,7 @@ func (c *Connection) readLoop() {
 		if errors.Is(err, os.ErrClosed) || errors.Is(err, net.ErrClosed) || errors.Is(err, io.EOF) {
 			return
 		} else if err != nil {
-			log.Printf("%s: %v", c.user, err)
+			log.Printf("%s: %v", c, err)
 			return
 		}
 
@@ -302,7 +303,11 @@ func (c *Connection) readLoop() {
 
 		bytes := make([]byte, n)
 		copy(bytes, readBuffer[:n])
-		c.input <- bytes
+		select {
+		case c.input <- bytes:
+		case <-c.close:
+			return
+		}
 	}
 }
 
@@ -338,25 +343,40 @@ func (c *Connection) parseAnswerByte(answerByte byte) (string, *Prompt) {
 }
 
 func (c *Connection) Close() {
-	select {
-	case <-c.closed:
-		return
-	default:
+	c.shutdown()
+	<-c.closed
+}
+
+// shutdown closes the underlying connection, which also unblocks a pending write to a stalled client.
+func (c *Connection) shutdown() {
+	c.closeOnce.Do(func() {
 		close(c.close)
-		<-c.closed
-	}
+		err := c.conn.Close()
+		if err != nil {
+			log.Printf("close %s: %v", c, err)
+		}
+	})
 }
 
+// Write enqueues the given bytes. It does not wait for the client to receive the data, a client that does not
+// keep up with the incoming messages is disconnected.
 func (c *Connection) Write(bytes []byte) (int, error) {
 	select {
-	case <-c.closed:
+	case <-c.close:
 		return 0, net.ErrClosed
 	default:
-		c.msg <- bytes
+	}
+
+	select {
+	case c.msg <- bytes:
 		return len(bytes), nil
+	default:
+		c.shutdown()
+		return 0, ErrStalled
 	}
 }
 
 func (c *Connection) String() string {
-	return c.user
+	user, _ := c.user.Load().(string)
+	return user
 }
-- 
2.43.0


From fa9a47865efcea7e72a1aa6ac89d7b5b08eba66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:00 +0000
Subject: [PATCH 24/47] fix: close several unresponsive scope streams at once

Removing a stream while iterating over all streams skipped one stream, or
led to an index out of range panic and a stream that was closed twice, if
more than one stream was unresponsive.
---
 scope/server_grpc.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/scope/server_grpc.go b/scope/server_grpc.go
index e6ee85e..198814a 100644
--- a/scope/server_grpc.go
+++ b/scope/server_grpc.go
@@ -65,24 +65,18 @@ func (s *grpcServer) addStream(out chan *pb.Frame) {
 	s.out = append(s.out, out)
 }
 
-func (s *grpcServer) removeStream(i int) {
-	if len(s.out) == 1 {
-		s.out = nil
-		return
-	}
-	s.out[i] = s.out[len(s.out)-1]
-	s.out = s.out[:len(s.out)-1]
-}
-
 func (s *grpcServer) sendFrameToStreams(frame *pb.Frame) {
-	for i, out := range s.out {
+	responsive := s.out[:0]
+	for _, out := range s.out {
 		select {
 		case out <- frame:
+			responsive = append(responsive, out)
 		default:
 			close(out)
-			s.removeStream(i)
 		}
 	}
+	clear(s.out[len(responsive):])
+	s.out = responsive
 }
 
 func (s *grpcServer) getFrameStream() chan *pb.Frame {
-- 
2.43.0


From 13ff348e0c40ca551ed644b2e25171a2f3d73274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:36 +0000
Subject: [PATCH 25/47] fix: make the scope server safe for concurrent use

The frames are shown by other goroutines than the one that starts and
stops the server. Depending on the timing, showing a frame or opening a
stream while the server was started or stopped led to a nil pointer
dereference, a send on a closed channel, or blocked forever. If the server
could not listen on its address, the next shown frame blocked forever. If
it was stopped right after the start, it continued to run.
---
 scope/server.go      |  45 +++++++++++--------
 scope/server_grpc.go | 105 ++++++++++++++++++++++++-------------------
 2 files changed, 84 insertions(+), 66 deletions(-)

diff --git a/scope/server.go b/scope/server.go
index b65c4c7..825b4ed 100644
--- a/scope/server.go
+++ b/scope/server.go
@@ -29,9 +29,13 @@ func NewScopeServer(address string) *ScopeServer {
 }
 
 func (s *ScopeServer) Active() bool {
+	return s.activeServer() != nil
+}
+
+func (s *ScopeServer) activeServer() *grpcServer {
 	s.serverLock.Lock()
 	defer s.serverLock.Unlock()
-	return s.server != nil
+	return s.server
 }
 
 func (s *ScopeServer) Addr() net.Addr {
@@ -44,7 +48,9 @@ func (s *ScopeServer) Addr() net.Addr {
 }
 
 func (s *ScopeServer) Start() error {
-	if s.Active() {
+	s.serverLock.Lock()
+	defer s.serverLock.Unlock()
+	if s.server != nil {
 		return fmt.Errorf("scope was already started")
 	}
 
@@ -52,39 +58,39 @@ func (s *ScopeServer) Start() error {
 	if err != nil {
 		return err
 	}
+	s.server = server
 
 	go func() {
-		s.serverLock.Lock()
-		if s.server != nil {
-			s.serverLock.Unlock()
-			return
-		}
-		s.server = server
-		s.serverLock.Unlock()
-
-		err := s.server.Start()
+		err := server.Start()
 		if err != nil {
 			log.Printf("Scope server failed: %v", err)
 		}
 
 		s.serverLock.Lock()
-		s.server = nil
-		s.serverLock.Unlock()
+		defer s.serverLock.Unlock()
+		if s.server == server {
+			s.server = nil
+		}
 	}()
 
 	return nil
 }
 
 func (s *ScopeServer) Stop() {
-	if !s.Active() {
+	s.serverLock.Lock()
+	server := s.server
+	s.server = nil
+	s.serverLock.Unlock()
+	if server == nil {
 		return
 	}
 
-	s.server.Stop()
+	server.Stop()
 }
 
 func (s *ScopeServer) ShowTimeFrame(timeFrame *TimeFrame) {
-	if !s.Active() {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
 
@@ -102,11 +108,12 @@ func (s *ScopeServer) ShowTimeFrame(timeFrame *TimeFrame) {
 			TimeFrame: grpcTimeFrame,
 		},
 	}
-	s.server.SendFrame(frame)
+	server.SendFrame(frame)
 }
 
 func (s *ScopeServer) ShowSpectralFrame(spectralFrame *SpectralFrame) {
-	if !s.Active() {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
 
@@ -134,5 +141,5 @@ func (s *ScopeServer) ShowSpectralFrame(spectralFrame *SpectralFrame) {
 			SpectralFrame: grpcSpectralFrame,
 		},
 	}
-	s.server.SendFrame(frame)
+	server.SendFrame(frame)
 }
diff --git a/scope/server_grpc.go b/scope/server_grpc.go
index 198814a..ee501b4 100644
--- a/scope/server_grpc.go
+++ b/scope/server_grpc.go
@@ -1,8 +1,10 @@
 package scope
 
 import (
+	"errors"
 	"fmt"
 	"net"
+	"sync"
 
 	"google.golang.org/grpc"
 
@@ -13,23 +15,19 @@ const defaultOutBufferSize = 10
 
 type grpcServer struct {
 	address *net.TCPAddr
+
+	lock    sync.Mutex // guards the following fields
 	server  *grpc.Server
+	out     []chan *pb.Frame
+	stopped bool
 
 	outBufferSize int
-	in            chan *pb.Frame
-	register      chan chan *pb.Frame
-	out           []chan *pb.Frame
-	shutdown      chan struct{}
-
 	activeAddress net.Addr
 }
 
 func newGRPCServer(address string, outBufferSize int) (*grpcServer, error) {
 	result := &grpcServer{
 		outBufferSize: outBufferSize,
-		in:            make(chan *pb.Frame),
-		register:      make(chan chan *pb.Frame),
-		shutdown:      make(chan struct{}),
 	}
 
 	localAddress, err := net.ResolveTCPAddr("tcp", address)
@@ -41,30 +39,6 @@ func newGRPCServer(address string, outBufferSize int) (*grpcServer, error) {
 	return result, nil
 }
 
-func (s *grpcServer) run() {
-	defer close(s.in)
-	defer close(s.register)
-
-	for {
-		select {
-		case <-s.shutdown:
-			for _, out := range s.out {
-				close(out)
-			}
-			s.out = nil
-			return
-		case out := <-s.register:
-			s.addStream(out)
-		case frame := <-s.in:
-			s.sendFrameToStreams(frame)
-		}
-	}
-}
-
-func (s *grpcServer) addStream(out chan *pb.Frame) {
-	s.out = append(s.out, out)
-}
-
 func (s *grpcServer) sendFrameToStreams(frame *pb.Frame) {
 	responsive := s.out[:0]
 	for _, out := range s.out {
@@ -81,39 +55,77 @@ func (s *grpcServer) sendFrameToStreams(frame *pb.Frame) {
 
 func (s *grpcServer) getFrameStream() chan *pb.Frame {
 	result := make(chan *pb.Frame, s.outBufferSize)
-	s.register <- result
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	if s.stopped {
+		close(result)
+		return result
+	}
+	s.out = append(s.out, result)
 	return result
 }
 
 func (s *grpcServer) Start() error {
-	if s.server != nil {
-		return fmt.Errorf("server already running")
+	server, err := s.setup()
+	if err != nil {
+		return err
 	}
-	s.server = grpc.NewServer()
-	pb.RegisterScopeServer(s.server, s)
+	defer s.teardown()
 
 	listener, err := net.Listen("tcp", s.address.String())
 	if err != nil {
 		return fmt.Errorf("cannot listen on address %s: %w", s.address, err)
 	}
+	s.lock.Lock()
 	s.activeAddress = listener.Addr()
+	s.lock.Unlock()
+
+	err = server.Serve(listener)
+	if errors.Is(err, grpc.ErrServerStopped) {
+		return nil
+	}
+	return err
+}
 
-	go s.run()
+func (s *grpcServer) setup() (*grpc.Server, error) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	if s.server != nil {
+		return nil, fmt.Errorf("server already running")
+	}
+	if s.stopped {
+		return nil, fmt.Errorf("server already stopped")
+	}
+	s.server = grpc.NewServer()
+	pb.RegisterScopeServer(s.server, s)
+	return s.server, nil
+}
 
-	err = s.server.Serve(listener)
+func (s *grpcServer) teardown() {
+	s.lock.Lock()
+	defer s.lock.Unlock()
 	s.server = nil
-	close(s.shutdown)
-	return err
+	s.stopped = true
+	for _, out := range s.out {
+		close(out)
+	}
+	s.out = nil
 }
 
 func (s *grpcServer) Stop() {
-	if s.server == nil {
+	s.lock.Lock()
+	server := s.server
+	s.stopped = true
+	s.lock.Unlock()
+	if server == nil {
 		return
 	}
-	s.server.Stop()
+	server.Stop()
 }
 
 func (s *grpcServer) Addr() net.Addr {
+	s.lock.Lock()
+	defer s.lock.Unlock()
 	return s.activeAddress
 }
 
@@ -135,8 +147,7 @@ func (s *grpcServer) GetFrames(_ *pb.GetScopeRequest, stream pb.Scope_GetFramesS
 }
 
 func (s *grpcServer) SendFrame(frame *pb.Frame) {
-	if s.server == nil {
-		return
-	}
-	s.in <- frame
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	s.sendFrameToStreams(frame)
 }
-- 
2.43.0


From 65dce43e6ecd1e6f73d1cf99a55b70975f6fc390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:43 +0000
Subject: [PATCH 26/47] fix: allow to reopen a closed scope client

The client still considered itself connected after Close. Requesting
frames without a connection caused a nil pointer dereference.
---
 scope/client.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scope/client.go b/scope/client.go
index 8f560c5..3e188b1 100644
--- a/scope/client.go
+++ b/scope/client.go
@@ -46,11 +46,18 @@ func (c *Client) Close() error {
 	if c.conn == nil {
 		return nil
 	}
-	return c.conn.Close()
+	err := c.conn.Close()
+	c.conn = nil
+	c.client = nil
+	return err
 }
 
 // GetFrames provides a set of channels to receive frames from the scope server.
 func (c *Client) GetFrames() (chan *TimeFrame, chan *SpectralFrame, error) {
+	if c.client == nil {
+		return nil, nil, fmt.Errorf("not connected")
+	}
+
 	stream, err := c.client.GetFrames(context.Background(), nil)
 	if err != nil {
 		return nil, nil, fmt.Errorf("cannot open frame stream: %v", err)
-- 
2.43.0


From 7c83d351b3ba8d6fc1e25933d1ac14788b87a20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:28 +0000
Subject: [PATCH 27/47] fix: do not crash on truncated KiwiSDR IQ messages

---
 kiwi/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index 4bb27cb..d29ac8c 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -289,7 +289,12 @@ func decodeIQMessage(iqData []float32, payload []byte) ([]float32, error) {
 	// rssi := 0.1*float32(smeter) - 127
 	// 10 more bytes of GPS information are ignored
 
-	iqBytes := payload[17:]
+	const headerSize = 17
+	if len(payload) < headerSize {
+		return nil, fmt.Errorf("IQ message too short: %d bytes", len(payload))
+	}
+
+	iqBytes := payload[headerSize:]
 	iqData = decodeIQBytes(iqData, iqBytes)
 
 	return iqData, nil
-- 
2.43.0


From 7dfb3c38249f8571d63266a212f6f2dcda229d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:56 +0000
Subject: [PATCH 28/47] fix: do not overwrite KiwiSDR IQ data that is still in
 use

All messages were decoded into the same buffer, while the receiver still
had the data of the previous messages in its queue.
---
 kiwi/client.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index d29ac8c..dd38449 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -81,7 +81,6 @@ type Client struct {
 	connected     bool
 	keepalive     bool
 
-	iqBuffer    []float32
 	kiwiHandler KiwiHandler
 
 	out    chan string
@@ -200,10 +199,12 @@ func (c *Client) readLoop(conn clientConn) {
 				} else if c.audioRate == 0 {
 					err = fmt.Errorf("received IQ data with unknown audio rate")
 				} else {
-					c.iqBuffer, err = decodeIQMessage(c.iqBuffer, payload)
-				}
-				if err == nil {
-					c.kiwiHandler.IQData(c.audioRate, c.iqBuffer)
+					// the handler keeps the data for asynchronous processing, so every message needs its own buffer
+					var iqData []float32
+					iqData, err = decodeIQMessage(nil, payload)
+					if err == nil {
+						c.kiwiHandler.IQData(c.audioRate, iqData)
+					}
 				}
 			default:
 				log.Printf("received message with unknown tag: %s %d bytes", tag, len(payload))
-- 
2.43.0


From 447c3356ea8922c238660820782b5230ba343ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 29/47] fix: make the shutdown of the KiwiSDR client reliable

When reading and writing failed at about the same time, or when the client
was closed concurrently, the same channel was closed twice. If the session
was terminated during the setup, e.g. because the KiwiSDR is too busy,
opening the client blocked forever. The websocket was not closed until the
KiwiSDR sent another message.
---
 kiwi/client.go | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index dd38449..df3651d 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -10,6 +10,7 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/cli"
@@ -58,6 +59,7 @@ var (
 	ErrTooBusy     = errors.New("kiwi too busy")
 	ErrBadPassword = errors.New("bad password")
 	ErrDown        = errors.New("kiwi down")
+	ErrClosed      = errors.New("connection to kiwi closed")
 )
 
 type clientConn interface {
@@ -83,9 +85,10 @@ type Client struct {
 
 	kiwiHandler KiwiHandler
 
-	out    chan string
-	close  chan struct{}
-	closed chan struct{}
+	out       chan string
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
 }
 
 func Open(host string, username string, password string, centerFrequency float64, bandwidth int, kiwiHandler KiwiHandler) (*Client, error) {
@@ -172,7 +175,7 @@ func (c *Client) readLoop(conn clientConn) {
 			msgType, msgBytes, err := conn.ReadMessage()
 			if err != nil {
 				log.Printf("cannot read next message from websocket: %v", err)
-				close(c.close)
+				c.shutdown()
 				return
 			}
 			if msgType != websocket.BinaryMessage {
@@ -213,7 +216,7 @@ func (c *Client) readLoop(conn clientConn) {
 			if err == ErrTooBusy || err == ErrBadPassword || err == ErrDown {
 				log.Printf("error message: %s", payload)
 				log.Print(err)
-				close(c.close)
+				c.shutdown()
 				return
 			}
 
@@ -315,6 +318,7 @@ func decodeIQBytes(iqData []float32, iqBytes []byte) []float32 {
 
 func (c *Client) writeLoop(conn clientConn) {
 	defer close(c.closed)
+	defer conn.Close() // this also unblocks the readLoop
 
 	keepaliveMessage := []byte("SET keepalive")
 	keepalive := time.NewTicker(5 * time.Second)
@@ -334,7 +338,7 @@ func (c *Client) writeLoop(conn clientConn) {
 		}
 		if err != nil {
 			log.Printf("cannot write message to websocket: %v", err)
-			close(c.close)
+			c.shutdown()
 			return
 		}
 	}
@@ -364,20 +368,23 @@ func (c *Client) setVFO(mode kiwiMode, lowCut int, highCut int, centerFrequency
 }
 
 func (c *Client) send(format string, args ...any) error {
-	c.out <- fmt.Sprintf(format, args...)
-	return nil
+	select {
+	case c.out <- fmt.Sprintf(format, args...):
+		return nil
+	case <-c.close:
+		return ErrClosed
+	}
 }
 
 func (c *Client) Close() {
-	select {
-	case <-c.close:
-		return
-	case <-c.closed:
-		return
-	default:
+	c.shutdown()
+	<-c.closed
+}
+
+func (c *Client) shutdown() {
+	c.closeOnce.Do(func() {
 		close(c.close)
-		<-c.closed
-	}
+	})
 }
 
 func nextClientNumber() int64 {
-- 
2.43.0


From ba0b83d390629614003651776c9db786252ce855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:11 +0000
Subject: [PATCH 30/47] fix: do not crash on KiwiSDR IQ messages of an
 unexpected size

---
 kiwi/kiwi.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kiwi/kiwi.go b/kiwi/kiwi.go
index 2df24c2..da4d690 100644
--- a/kiwi/kiwi.go
+++ b/kiwi/kiwi.go
@@ -94,7 +94,8 @@ func (p *Process) Connected(sampleRate int) {
 func (p *Process) IQData(sampleRate int, data []float32) {
 	const partSize = blockSize * 2
 	if len(data)%partSize != 0 {
-		panic(fmt.Errorf("data must be transferred in blocks of %d samples instead of %d", partSize, len(data)))
+		log.Printf("data must be transferred in blocks of %d samples instead of %d", partSize, len(data))
+		return
 	}
 	count := len(data) / partSize
 	for i := 0; i < count; i++ {
-- 
2.43.0


From 63c5ccc48d582f694b928bcea93f596ba33ec547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 31/47] fix: synchronize the settings of the KiwiSDR process

The settings are written by the main goroutine while they are read in the
client's goroutine when the connection is established. Depending on the
timing, settings got lost. The receiver was started again when the
connection was established while the process was closed.
---
 kiwi/kiwi.go | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/kiwi/kiwi.go b/kiwi/kiwi.go
index da4d690..4e62bbf 100644
--- a/kiwi/kiwi.go
+++ b/kiwi/kiwi.go
@@ -3,6 +3,7 @@ package kiwi
 import (
 	"fmt"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/rx"
@@ -23,6 +24,7 @@ type Process struct {
 	receiver *rx.Receiver[float32, int]
 	spotter  Spotter
 
+	lock              sync.Mutex // guards the following fields, they are used from several goroutines
 	threshold         float32
 	centerFrequency   float64
 	rxFrequency       float64
@@ -30,8 +32,7 @@ type Process struct {
 	silenceTimeout    time.Duration
 	attachmentTimeout time.Duration
 	scope             scope.Scope
-
-	close chan struct{}
+	closed            bool
 }
 
 func New(host string, username string, password string, centerFrequency float64, bandwidth int, spotter Spotter) (*Process, error) {
@@ -39,7 +40,6 @@ func New(host string, username string, password string, centerFrequency float64,
 		spotter:         spotter,
 		centerFrequency: centerFrequency,
 		rxFrequency:     centerFrequency,
-		close:           make(chan struct{}),
 		scope:           scope.NewNullScope(),
 	}
 	result.receiver = rx.NewReceiver[float32, int]("", rx.StrainMode, rx.WallClock)
@@ -57,14 +57,16 @@ func New(host string, username string, password string, centerFrequency float64,
 }
 
 func (p *Process) Close() {
-	select {
-	case <-p.close:
+	p.lock.Lock()
+	closed := p.closed
+	p.closed = true
+	p.lock.Unlock()
+	if closed {
 		return
-	default:
-		close(p.close)
-		p.client.Close()
-		p.receiver.Stop()
 	}
+
+	p.client.Close()
+	p.receiver.Stop()
 }
 
 func (p *Process) Connected(sampleRate int) {
@@ -72,12 +74,18 @@ func (p *Process) Connected(sampleRate int) {
 		log.Fatal("no audio rate!")
 	}
 
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	if p.closed {
+		return
+	}
+
 	p.receiver.Start(sampleRate, blockSize)
 	if p.threshold != 0 {
 		p.receiver.SetPeakThreshold(p.threshold)
 	}
 	if p.rxFrequency != 0 {
-		p.SetRXFrequency(p.rxFrequency)
+		p.setRXFrequency(p.rxFrequency)
 	}
 	if p.signalDebounce != 0 {
 		p.receiver.SetSignalDebounce(p.signalDebounce)
@@ -106,16 +114,26 @@ func (p *Process) IQData(sampleRate int, data []float32) {
 }
 
 func (p *Process) SetScope(scope scope.Scope) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.scope = scope
 	p.receiver.SetScope(scope)
 }
 
 func (p *Process) SetThreshold(threshold int) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.threshold = float32(threshold)
 	p.receiver.SetPeakThreshold(float32(threshold))
 }
 
 func (p *Process) SetRXFrequency(frequency float64) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	p.setRXFrequency(frequency)
+}
+
+func (p *Process) setRXFrequency(frequency float64) {
 	p.rxFrequency = frequency
 	if frequency == 0 {
 		return
@@ -126,16 +144,22 @@ func (p *Process) SetRXFrequency(frequency float64) {
 }
 
 func (p *Process) SetSilenceTimeout(timeout time.Duration) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.silenceTimeout = timeout
 	p.receiver.SetSilenceTimeout(timeout)
 }
 
 func (p *Process) SetAttachmentTimeout(timeout time.Duration) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.attachmentTimeout = timeout
 	p.receiver.SetAttachmentTimeout(timeout)
 }
 
 func (p *Process) SetSignalDebounce(debounce int) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.signalDebounce = debounce
 	p.receiver.SetSignalDebounce(debounce)
 }
-- 
2.43.0


From 3af2a0a77649a73166ec9d484df4c3a2449d80be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 32/47] fix: accept IPv6 addresses as TCP host

---
 cli/cli.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cli/cli.go b/cli/cli.go
index 6813cf2..8694042 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -1,7 +1,6 @@
 package cli
 
 import (
-	"fmt"
 	"net"
 	"strconv"
 	"strings"
@@ -18,7 +17,7 @@ func ParseTCPAddrArg(arg string, defaultHost string, defaultPort int) (*net.TCPA
 		port = strconv.Itoa(defaultPort)
 	}
 
-	return net.ResolveTCPAddr("tcp", fmt.Sprintf("%s:%s", host, port))
+	return net.ResolveTCPAddr("tcp", net.JoinHostPort(host, port))
 }
 
 func splitHostPort(hostport string) (host, port string) {
-- 
2.43.0


From cac0ac50dfd1b3803901c402185ae67a523dbd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 33/47] fix: connect to a KiwiSDR with an IPv6 address

---
 kiwi/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index df3651d..e1a9b19 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -152,7 +152,7 @@ func newClient(host string, keepalive bool, kiwiHandler KiwiHandler) (*Client, e
 }
 
 func (c *Client) connect() (clientConn, error) {
-	hostUrl, err := url.Parse(fmt.Sprintf("ws://%s:%d/%d/SND", c.host.IP.String(), c.host.Port, nextClientNumber()))
+	hostUrl, err := url.Parse(fmt.Sprintf("ws://%s/%d/SND", c.host.String(), nextClientNumber()))
 	if err != nil {
 		return nil, fmt.Errorf("cannot build KiwiSDR URL: %v", err)
 	}
-- 
2.43.0


From f9cd0e22ba75657b5d9cd3e5c49e66f4ca15d3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 34/47] fix: synchronize the settings of the TCI process

The settings are written by the main goroutine while they are read in
other goroutines, e.g. when the connection is established. Depending on
the timing, settings got lost.
---
 tci/tci.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/tci/tci.go b/tci/tci.go
index a624187..baa4297 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -2,6 +2,8 @@ package tci
 
 import (
 	"fmt"
+	"sync"
+	"sync/atomic"
 	"time"
 
 	tci "github.com/ftl/tci/client"
@@ -29,13 +31,14 @@ type Process struct {
 	receiver *rx.Receiver[float32, int]
 	spotter  Spotter
 
+	settings          sync.Mutex // guards the settings, they are used from several goroutines
 	threshold         float32
 	signalDebounce    int
 	silenceTimeout    time.Duration
 	attachmentTimeout time.Duration
 	scope             scope.Scope
-	showListeners     bool
-	showSpots         bool
+	showListeners     atomic.Bool
+	showSpots         atomic.Bool
 
 	opAsync chan func()
 	close   chan struct{}
@@ -109,6 +112,8 @@ func (p *Process) doAsync(f func()) {
 }
 
 func (p *Process) SetScope(scope scope.Scope) {
+	p.settings.Lock()
+	defer p.settings.Unlock()
 	p.scope = scope
 	if p.client.Connected() {
 		p.receiver.SetScope(scope)
@@ -116,11 +121,13 @@ func (p *Process) SetScope(scope scope.Scope) {
 }
 
 func (p *Process) SetShow(listeners bool, spots bool) {
-	p.showListeners = listeners
-	p.showSpots = spots
+	p.showListeners.Store(listeners)
+	p.showSpots.Store(spots)
 }
 
 func (p *Process) SetThreshold(threshold int) {
+	p.settings.Lock()
+	defer p.settings.Unlock()
 	p.threshold = float32(threshold)
 	if p.client.Connected() {
 		p.receiver.SetPeakThreshold(float32(threshold))
@@ -128,6 +135,8 @@ func (p *Process) SetThreshold(threshold int) {
 }
 
 func (p *Process) SetSilenceTimeout(timeout time.Duration) {
+	p.settings.Lock()
+	defer p.settings.Unlock()
 	p.silenceTimeout = timeout
 	if p.client.Connected() {
 		p.receiver.SetSilenceTimeout(timeout)
@@ -135,6 +144,8 @@ func (p *Process) SetSilenceTimeout(timeout time.Duration) {
 }
 
 func (p *Process) SetAttachmentTimeout(timeout time.Duration) {
+	p.settings.Lock()
+	defer p.settings.Unlock()
 	p.attachmentTimeout = timeout
 	if p.client.Connected() {
 		p.receiver.SetAttachmentTimeout(timeout)
@@ -142,6 +153,8 @@ func (p *Process) SetAttachmentTimeout(timeout time.Duration) {
 }
 
 func (p *Process) SetSignalDebounce(debounce int) {
+	p.settings.Lock()
+	defer p.settings.Unlock()
 	p.signalDebounce = debounce
 	if p.client.Connected() {
 		p.receiver.SetSignalDebounce(debounce)
@@ -153,6 +166,9 @@ func (p *Process) onConnected(connected bool) {
 		return
 	}
 
+	p.settings.Lock()
+	defer p.settings.Unlock()
+
 	bandwidth := -p.client.MinIFFrequency + p.client.MaxIFFrequency
 	sampleRate := 48000
 	blockSize := 2048 / partCount
@@ -190,7 +206,7 @@ func (p *Process) ListenerActivated(id string, frequency int) {
 }
 
 func (p *Process) showDecode(id string, frequency int) {
-	if p.showListeners {
+	if p.showListeners.Load() {
 		p.client.DeleteSpot(id)
 		p.client.AddSpot(id, tci.ModeCW, frequency, decodeColor, "SDRainer")
 	}
@@ -215,7 +231,7 @@ func (p *Process) CallsignSpotted(_ string, callsign string, frequency int) {
 }
 
 func (p *Process) showSpot(callsign string, frequency int) {
-	if p.showSpots {
+	if p.showSpots.Load() {
 		p.client.AddSpot(">"+callsign+"<", tci.ModeCW, frequency, spotColor, "SDRainer")
 	}
 	if p.spotter != nil {
-- 
2.43.0


From 033ba86292b40a439db36622718c5c7cf290c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:15 +0000
Subject: [PATCH 35/47] fix: do not block when the TCI process is closed

With a full queue of asynchronous operations, the receiver waited for the
process to execute the operations, and the process waited for the receiver
to stop. Concurrent calls of Close could close the channel twice. The
receiver was started again if the connection was established while the
process was closed.
---
 tci/tci.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/tci/tci.go b/tci/tci.go
index baa4297..1d101fa 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -40,9 +40,10 @@ type Process struct {
 	showListeners     atomic.Bool
 	showSpots         atomic.Bool
 
-	opAsync chan func()
-	close   chan struct{}
-	closed  chan struct{}
+	opAsync   chan func()
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
 }
 
 func New(host string, trx int, mode rx.ReceiverMode, spotter Spotter, reporter rx.Reporter[int], traceTCI bool) (*Process, error) {
@@ -79,13 +80,12 @@ func New(host string, trx int, mode rx.ReceiverMode, spotter Spotter, reporter r
 }
 
 func (p *Process) Close() {
-	select {
-	case <-p.close:
-		return
-	default:
+	p.closeOnce.Do(func() {
+		p.settings.Lock()
+		defer p.settings.Unlock()
 		close(p.close)
-		<-p.closed
-	}
+	})
+	<-p.closed
 }
 
 func (p *Process) run() {
@@ -104,10 +104,9 @@ func (p *Process) run() {
 
 func (p *Process) doAsync(f func()) {
 	select {
-	case <-p.closed:
-		f()
-	default:
-		p.opAsync <- f
+	case <-p.close:
+		// nobody executes operations anymore, do not block the receiver
+	case p.opAsync <- f:
 	}
 }
 
@@ -169,6 +168,12 @@ func (p *Process) onConnected(connected bool) {
 	p.settings.Lock()
 	defer p.settings.Unlock()
 
+	select {
+	case <-p.close:
+		return
+	default:
+	}
+
 	bandwidth := -p.client.MinIFFrequency + p.client.MaxIFFrequency
 	sampleRate := 48000
 	blockSize := 2048 / partCount
-- 
2.43.0


From b3f421b62d65ef2c668164422852ee829ba5a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 36/47] fix: survive the loss of the TCI connection during a
 command

If the connection is lost while the TCI client waits for the reply to a
command, the client blocks forever. Sooner or later this also blocked the
process, the receiver, and the shutdown; and if this happened while the
connection was established, there was no further attempt to connect.
---
 tci/tci.go | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/tci/tci.go b/tci/tci.go
index 1d101fa..b723488 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -17,6 +17,7 @@ const (
 	defaultHostname = "localhost"
 	defaultPort     = 40001
 	timeout         = 10 * time.Second
+	commandTimeout  = 1 * time.Second
 	partCount       = 4
 )
 
@@ -94,7 +95,7 @@ func (p *Process) run() {
 		case op := <-p.opAsync:
 			op()
 		case <-p.close:
-			p.client.StopIQ(p.trx)
+			p.command(func() { p.client.StopIQ(p.trx) })
 			p.receiver.Stop()
 			close(p.closed)
 			return
@@ -102,6 +103,23 @@ func (p *Process) run() {
 	}
 }
 
+// command executes the given function that sends commands to the TCI host. The TCI client never returns from sending
+// a command if the connection is lost while it is waiting for the reply. This must not block the process forever.
+func (p *Process) command(f func()) {
+	done := make(chan struct{})
+	go func() {
+		defer close(done)
+		f()
+	}()
+
+	timeout := time.NewTimer(commandTimeout)
+	defer timeout.Stop()
+	select {
+	case <-done:
+	case <-timeout.C:
+	}
+}
+
 func (p *Process) doAsync(f func()) {
 	select {
 	case <-p.close:
@@ -195,8 +213,8 @@ func (p *Process) onConnected(connected bool) {
 	}
 	p.receiver.SetScope(p.scope)
 
-	p.client.SetIQSampleRate(48000)
-	p.client.StartIQ(p.trx)
+	p.command(func() { p.client.SetIQSampleRate(48000) })
+	p.command(func() { p.client.StartIQ(p.trx) })
 }
 
 var (
@@ -212,8 +230,10 @@ func (p *Process) ListenerActivated(id string, frequency int) {
 
 func (p *Process) showDecode(id string, frequency int) {
 	if p.showListeners.Load() {
-		p.client.DeleteSpot(id)
-		p.client.AddSpot(id, tci.ModeCW, frequency, decodeColor, "SDRainer")
+		p.command(func() {
+			p.client.DeleteSpot(id)
+			p.client.AddSpot(id, tci.ModeCW, frequency, decodeColor, "SDRainer")
+		})
 	}
 }
 
@@ -222,7 +242,7 @@ func (p *Process) ListenerDeactivated(id string, _ int) {
 }
 
 func (p *Process) hideDecode(id string) {
-	p.client.DeleteSpot(id)
+	p.command(func() { p.client.DeleteSpot(id) })
 }
 
 func (p *Process) CallsignDecoded(listener string, callsign string, frequency int, count int, weight int) {
@@ -237,7 +257,9 @@ func (p *Process) CallsignSpotted(_ string, callsign string, frequency int) {
 
 func (p *Process) showSpot(callsign string, frequency int) {
 	if p.showSpots.Load() {
-		p.client.AddSpot(">"+callsign+"<", tci.ModeCW, frequency, spotColor, "SDRainer")
+		p.command(func() {
+			p.client.AddSpot(">"+callsign+"<", tci.ModeCW, frequency, spotColor, "SDRainer")
+		})
 	}
 	if p.spotter != nil {
 		p.spotter.Spot(callsign, float64(frequency), "cw", time.Now().UTC())
@@ -251,7 +273,7 @@ func (p *Process) SpotTimeout(_ string, callsign string, _ int) {
 }
 
 func (p *Process) hideSpot(callsign string) {
-	p.client.DeleteSpot(">" + callsign + "<")
+	p.command(func() { p.client.DeleteSpot(">" + callsign + "<") })
 }
 
 type tciListener struct {
-- 
2.43.0


From c3806e3c9fedd4067d87a42993b670141c63b5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 37/47] fix: consider the last window when looking for the
 noise floor

---
 dsp/fft.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index ea6483b..64dc3d3 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -228,6 +228,8 @@ func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
 		if count == 0 {
 			from = i
 		}
+		sum += float64(psd[i])
+		count++
 		if count == windowSize {
 			count = 0
 			mean := sum / float64(windowSize)
@@ -236,12 +238,10 @@ func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
 				first = false
 				resultMean = mean
 				resultFrom = from
-				resultTo = i - 1
+				resultTo = i
 			}
 			sum = 0
 		}
-		sum += float64(psd[i])
-		count++
 	}
 
 	sum = 0
-- 
2.43.0


From c72803c35d45b5eb885686a666aeb41a54decf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 38/47] fix: decode the word gaps next to characters of a
 single symbol

---
 cw/decode.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/cw/decode.go b/cw/decode.go
index bcfb81b..4f5b733 100644
--- a/cw/decode.go
+++ b/cw/decode.go
@@ -257,7 +257,13 @@ func (d *Decoder) onRisingEdge(offDuration ticks) {
 		return
 	}
 
-	d.offThreshold.Put(offDuration, true)
+	// the gaps before and after a character of a single symbol do not tell how long a short gap is,
+	// even if one of them is a word gap and therefore much longer than the other
+	if min(offDuration, d.offThreshold.Last()) < 2*d.onThreshold.Low() {
+		d.offThreshold.Put(offDuration, true)
+	} else {
+		d.offThreshold.Skip(offDuration)
+	}
 
 	threshold := d.offThreshold.Get()
 	upperThreshold := 4.5 * d.offThreshold.Low()
@@ -412,6 +418,14 @@ func (t *AdaptiveThreshold) Put(duration ticks, state bool) {
 	t.updateThreshold()
 }
 
+// Skip the given duration: it is not used to adapt the threshold.
+func (t *AdaptiveThreshold) Skip(duration ticks) {
+	if duration >= t.low*t.upperBound {
+		return
+	}
+	t.last = duration
+}
+
 func (t *AdaptiveThreshold) updateThreshold() {
 	// geometric mean
 	t.threshold = ticks(math.Sqrt(float64(t.low) * float64(t.high)))
@@ -421,6 +435,11 @@ func (t *AdaptiveThreshold) Get() ticks {
 	return t.threshold
 }
 
+// Last duration that was seen.
+func (t *AdaptiveThreshold) Last() ticks {
+	return t.last
+}
+
 func (t *AdaptiveThreshold) Ratio() ticks {
 	return t.high / t.low
 }
-- 
2.43.0


From ee76eedf7e6509d1202433ecff60f569c104e2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 39/47] fix: ignore a local copy of the DXCC prefixes without
 any prefix

---
 rx/text_processor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 54872b7..62e7e5d 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"reflect"
 	"regexp"
 	"strings"
 	"time"
@@ -111,6 +112,10 @@ func setupDXCCFinder() dxccFinder {
 		log.Printf("cannot load DXCC prefixes: %v", err)
 		return nil
 	}
+	if reflect.DeepEqual(result, dxcc.NewPrefixes()) {
+		log.Printf("the local copy of DXCC prefixes is empty: %v", localFilename)
+		return nil
+	}
 	return result
 }
 
-- 
2.43.0


From 19fa75a3bd5868021fbf3ba8cbdda644fa98f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 40/47] fix: release the port of the scope before Stop returns

A scope that was stopped right after its start could still open its listener
after Stop had returned, and occupied the address for the next start.
---
 scope/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scope/server.go b/scope/server.go
index 825b4ed..7656c4d 100644
--- a/scope/server.go
+++ b/scope/server.go
@@ -16,6 +16,7 @@ type ScopeServer struct {
 	address string
 
 	server     *grpcServer
+	serverDone chan struct{} // closed when the server does not listen anymore
 	serverLock *sync.Mutex
 }
 
@@ -58,9 +59,12 @@ func (s *ScopeServer) Start() error {
 	if err != nil {
 		return err
 	}
+	done := make(chan struct{})
 	s.server = server
+	s.serverDone = done
 
 	go func() {
+		defer close(done)
 		err := server.Start()
 		if err != nil {
 			log.Printf("Scope server failed: %v", err)
@@ -79,6 +83,7 @@ func (s *ScopeServer) Start() error {
 func (s *ScopeServer) Stop() {
 	s.serverLock.Lock()
 	server := s.server
+	done := s.serverDone
 	s.server = nil
 	s.serverLock.Unlock()
 	if server == nil {
@@ -86,6 +91,7 @@ func (s *ScopeServer) Stop() {
 	}
 
 	server.Stop()
+	<-done
 }
 
 func (s *ScopeServer) ShowTimeFrame(timeFrame *TimeFrame) {
-- 
2.43.0


From 6f722babb5eac79c948713bb98fac97957d9ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 41/47] fix: register the TCI listener before the client
 connects

The listener was added after the client started to connect. If the connection
was established first, the process missed it and never started the IQ stream.
---
 tci/tci.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tci/tci.go b/tci/tci.go
index b723488..b5db34b 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -56,10 +56,7 @@ func New(host string, trx int, mode rx.ReceiverMode, spotter Spotter, reporter r
 		tcpHost.Port = defaultPort
 	}
 
-	client := tci.KeepOpen(tcpHost, timeout, traceTCI)
-
 	result := &Process{
-		client:  client,
 		trx:     trx,
 		spotter: spotter,
 		opAsync: make(chan func(), 100),
@@ -74,8 +71,12 @@ func New(host string, trx int, mode rx.ReceiverMode, spotter Spotter, reporter r
 		result.receiver.AddReporter(reporter)
 	}
 
+	// The listener must be known before the client connects, otherwise messages may be missed. The lock defers the
+	// handling of the connection until the client is available.
+	result.settings.Lock()
+	defer result.settings.Unlock()
+	result.client = tci.KeepOpen(tcpHost, timeout, traceTCI, result.listener)
 	go result.run()
-	client.Notify(result.listener)
 
 	return result, nil
 }
-- 
2.43.0


From 236e0bf37265ef118e157de092fe0699bae34d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:36 +0000
Subject: [PATCH 42/47] fix: the debouncer must know the current state when its
 threshold is raised

---
 dsp/dsp.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dsp/dsp.go b/dsp/dsp.go
index 3135057..3638658 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -162,10 +162,6 @@ func (d *BoolDebouncer) Threshold() int {
 // Debounce is periodically called with the raw signal state. It returns the debounced signal state.
 // The signal must be stable for threshold calls of Debounce until a state change is propagated by Debounce.
 func (d *BoolDebouncer) Debounce(rawState bool) bool {
-	if d.threshold < 2 {
-		return rawState
-	}
-
 	if rawState != d.lastRawState {
 		d.stateCount = 1
 	} else {
-- 
2.43.0


From 24575c272e393af8b38f44be87de18bdd8dff553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 43/47] fix: record the selected Pulseaudio source at the
 sample rate of the demodulator

---
 cmd/pulse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/pulse.go b/cmd/pulse.go
index 4d3940b..923a751 100644
--- a/cmd/pulse.go
+++ b/cmd/pulse.go
@@ -61,7 +61,11 @@ func runPulse(ctx context.Context, scope scope.Scope, cmd *cobra.Command, args [
 	demodulator.SetMagnitudeThreshold(pulseFlags.magnitudeThreshold)
 	demodulator.SetScope(scope)
 
-	stream, err := client.NewRecord(pulse.Float32Writer(demodulator.Write), pulse.RecordBufferFragmentSize(2*uint32(demodulator.Blocksize())))
+	stream, err := client.NewRecord(pulse.Float32Writer(demodulator.Write),
+		pulse.RecordSource(source),
+		pulse.RecordSampleRate(source.SampleRate()),
+		pulse.RecordBufferFragmentSize(2*uint32(demodulator.Blocksize())),
+	)
 	if err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0


From ec879de5a9afc54753c1b1a037787f00116fb3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 44/47] fix: apply the --wpm flag to the decoder

---
 cmd/pulse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/pulse.go b/cmd/pulse.go
index 923a751..e052a36 100644
--- a/cmd/pulse.go
+++ b/cmd/pulse.go
@@ -56,6 +56,7 @@ func runPulse(ctx context.Context, scope scope.Scope, cmd *cobra.Command, args [
 
 	demodulator := cw.NewAudioDemodulator(os.Stdout, float64(pulseFlags.pitch), source.SampleRate(), 0)
 	defer demodulator.Close()
+	demodulator.PresetWPM(pulseFlags.wpm)
 	demodulator.SetScale(pulseFlags.scale)
 	demodulator.SetDebounceThreshold(decodeFlags.debounce)
 	demodulator.SetMagnitudeThreshold(pulseFlags.magnitudeThreshold)
-- 
2.43.0


From ae202b1e0da9235c93db21d133694aed568f53ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:04 +0000
Subject: [PATCH 45/47] fix: make the detection threshold of strain kiwi
 configurable, it was zero

---
 cmd/kiwi.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/kiwi.go b/cmd/kiwi.go
index 61d73d6..aae23ab 100644
--- a/cmd/kiwi.go
+++ b/cmd/kiwi.go
@@ -36,6 +36,7 @@ func init() {
 	strainKiwiCmd.Flags().Float64Var(&kiwiFlags.centerFrequency, "center", 7_020_000, "the center frequency")
 	strainKiwiCmd.Flags().Float64Var(&kiwiFlags.rxFrequency, "rx", 0, "the rx frequency")
 	strainKiwiCmd.Flags().IntVar(&kiwiFlags.bandwidth, "bandwidth", 10_000, "the bandwidth that is observed to find CW signals (max 12000)")
+	strainKiwiCmd.Flags().IntVar(&kiwiFlags.threshold, "threshold", 15, "the threshold in dB over noise that a signal must exceed to be detected")
 }
 
 func runStrainKiwi(ctx context.Context, scope scope.Scope, cmd *cobra.Command, args []string) {
-- 
2.43.0


From d627c557d436ae9732a2671fcb129761bfb0adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 46/47] fix: do not print the text of another signal when the
 identifier of a released listener is used again

---
 rx/receiver.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rx/receiver.go b/rx/receiver.go
index 6628cc2..3231bff 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -208,6 +208,7 @@ func (r *Receiver[T, F]) ListenerActivated(listener string, frequency F) {
 }
 
 func (r *Receiver[T, F]) ListenerDeactivated(listener string, frequency F) {
+	r.out.Deactivate(listener) // the identifier is used again for another signal
 	for _, reporter := range r.reporters {
 		reporter.ListenerDeactivated(listener, frequency)
 	}
@@ -581,3 +582,10 @@ func (w *ChannelWriter) Channel(channel string) WriterFunc {
 func (w *ChannelWriter) SetActive(channel string) {
 	w.activeChannel = channel
 }
+
+// Deactivate the given channel, if it is the active channel.
+func (w *ChannelWriter) Deactivate(channel string) {
+	if w.activeChannel == channel {
+		w.activeChannel = ""
+	}
+}
-- 
2.43.0


From bfcd01bd8d23029b6df9282a80341f915af302f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:37 +0000
Subject: [PATCH 47/47] fix: do not let later TCI commands overtake a command
 the machine is slow to send

---
 tci/tci.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/tci/tci.go b/tci/tci.go
index b5db34b..9b356ee 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -105,7 +105,8 @@ func (p *Process) run() {
 }
 
 // command executes the given function that sends commands to the TCI host. The TCI client never returns from sending
-// a command if the connection is lost while it is waiting for the reply. This must not block the process forever.
+// a command if the connection is lost while it is waiting for the reply. This must not block the process forever. As long
+// as the connection is alive, the process waits, otherwise the following commands would overtake this one.
 func (p *Process) command(f func()) {
 	done := make(chan struct{})
 	go func() {
@@ -113,11 +114,26 @@ func (p *Process) command(f func()) {
 		f()
 	}()
 
-	timeout := time.NewTimer(commandTimeout)
+	timeout := time.NewTicker(commandTimeout)
 	defer timeout.Stop()
+	for {
+		select {
+		case <-done:
+			return
+		case <-timeout.C:
+			if p.isClosed() || !p.client.Connected() {
+				return
+			}
+		}
+	}
+}
+
+func (p *Process) isClosed() bool {
 	select {
-	case <-done:
-	case <-timeout.C:
+	case <-p.close:
+		return true
+	default:
+		return false
 	}
 }
 
@@ -187,10 +203,8 @@ func (p *Process) onConnected(connected bool) {
 	p.settings.Lock()
 	defer p.settings.Unlock()
 
-	select {
-	case <-p.close:
+	if p.isClosed() {
 		return
-	default:
 	}
 
 	bandwidth := -p.client.MinIFFrequency + p.client.MaxIFFrequency
-- 
2.43.0

