#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Spectrum is the centred power spectrum of the IQ block",
 "For every IQ block of even size, the computed spectrum and power density are those of the discrete Fourier transform of I+jQ, with zero frequency in the middle bin, negative offsets below and positive offsets above it. The result depends only on the given samples, not on earlier blocks, their size, or the previous content of the output buffers. The projections (power, magnitude, magnitude in dB, power value in dB) agree with each other: magnitude is the square root of the power and both dB values are 10*log10(20*power/blocksize^2).",
 ["inputs", "histories"], "all sample blocks of any even block size, all sequences of blocks through one transformer",
 "The tests only check the index permutation of six bins; no test computes a spectrum.",
 ["dsp/fft.go"], [("FFT with bin rotation", "dsp/fft.go IQToSpectrumAndPSD, IQToSpectrum, binToSpectrumIndex"), ("projections", "dsp/fft.go PSD, Magnitude, MagnitudeIndB, PSDValueIndB")],
 ["output slices of the transformer"])
prop("C02", "Frequency and bin mapping are mutually consistent",
 "For every even sample rate, even block size and center frequency in full Hz, with bins of at least 2 Hz, bin k is centred at center - rate/2 + k*rate/size, its borders are half a bin below and above, and each reported frequency is within 1 Hz of that. A frequency is mapped to the bin whose center is nearest, frequencies outside of the spectrum to the first or last bin, and mapping a bin's center frequency back gives the same bin. Changing the center frequency moves the whole mapping; a peak contains exactly the bins between its first and last bin.",
 ["inputs", "configurations"], "all sample rates, even block sizes, center frequencies (integer and floating point), bins and frequencies",
 "The tests check two bins of one configuration, both with an integral bin frequency.",
 ["dsp/fft.go"], [("FrequencyMapping", "dsp/fft.go NewFrequencyMapping, SetCenterFrequency, BinToFrequency, FrequencyToBin"), ("Peak geometry", "dsp/fft.go Peak.ContainsBin, Center, Width, WidthHz, CenterFrequency")],
 ["return values of the mapping"])
prop("C03", "Peak detection finds exactly the runs above the threshold",
 "For every cumulated spectrum, the detected peaks are exactly the maximal runs of bins whose averaged value exceeds the threshold, in ascending order, including runs that touch the first or last bin. Each peak carries the border frequencies of its run, a strongest bin of the run as signal bin, and the averaged value there as signal value. Its signal frequency is the quadratic interpolation between the neighbouring bins: always finite and within half a bin of the signal bin, and exact for a parabola-shaped peak.",
 ["inputs"], "all spectra (plateaus, negative dB values, peaks at the edges, all above or all below), thresholds, cumulation sizes and mappings",
 "No existing test calls the peak detection.",
 ["dsp/fft.go"], [("FindPeaks", "dsp/fft.go FindPeaks"), ("quadratic interpolation", "dsp/fft.go SignalFrequency, PeakCenterCorrection")],
 ["returned peaks"])
prop("C04", "Noise floor is taken from the quietest part inside the edges",
 "The noise floor is the lowest mean among the consecutive windows that divide the spectrum between the two edges into tenths, together with the variance inside that window. Values in the edges and signals that leave at least one window free never influence it. For every edge width, including negative and too large ones, the result is finite and lies between the smallest and the largest value of the spectrum.",
 ["inputs", "configurations"], "all power spectra and all edge widths",
 "No existing test calls the noise floor estimation.",
 ["dsp/fft.go", "rx/receiver.go"], [("FindNoiseFloor", "dsp/fft.go FindNoiseFloor"), ("use in the receiver", "rx/receiver.go run")],
 ["returned floor and variance"])
prop("C05", "Rolling statistics equal those of the last n values",
 "After every insertion, the rolling mean and the rolling variance equal the mean and the variance of exactly the last n inserted values (values not inserted yet count as zero), and the history functions (get, sum, minimum, maximum, mean, variance, standard deviation, selection by index) equal the same functions over the last values in order. The statistics do not drift, however many values are inserted, and infinite or NaN values have no effect anymore as soon as they have left the window. A reset forgets everything.",
 ["histories", "inputs"], "all sequences of insertions and resets for all window lengths and integer and floating point types",
 "The tests only read single values from the history after a handful of insertions; mean and variance are not tested at all.",
 ["dsp/dsp.go"], [("RollingMean", "dsp/dsp.go RollingMean"), ("RollingVariance", "dsp/dsp.go RollingVariance"), ("RollingHistory", "dsp/dsp.go RollingHistory")],
 ["return values of Put and Get and the history functions"])
prop("C06", "Debouncing passes a change only after it was stable",
 "With a threshold of n > 1, the debounced state starts as off and changes only with the n-th consecutive identical raw value that differs from it, and it always changes then. With a threshold of 0 or 1 the raw value is passed unchanged. Shorter glitches never reach the output. The threshold can be changed at any time, the new one applies from the next value on.",
 ["histories", "configurations"], "all raw state sequences and thresholds",
 "The tests check a few hand-written sequences for one threshold.",
 ["dsp/dsp.go"], [("BoolDebouncer", "dsp/dsp.go BoolDebouncer.Debounce")], ["returned states"])
prop("C07", "Tone detection reacts to the pitch and only to the pitch",
 "For every pitch and sample rate in the audio range, the block size is a multiple of the rounded pitch period of about 5 ms and the magnitude of a block equals the magnitude of the discrete Fourier transform at the bin nearest to the pitch, independent of the phase of the tone. A full-scale tone at this bin's frequency is detected, silence and tones on other bins are not, and the state is on exactly if the normalized magnitude exceeds the configured threshold. Only the first block of a longer buffer is used, and a buffer shorter than a block is refused.",
 ["inputs", "configurations"], "all pitches, sample rates, phases, amplitudes and buffer contents",
 "The tests check a few pitch and sample rate pairs with one phase.",
 ["dsp/dsp.go"], [("Goertzel filter", "dsp/dsp.go NewGoertzel, Magnitude, NormalizedMagnitude, Detect"), ("FilterBlock.Max", "dsp/dsp.go")], ["magnitude, state and sample count of Detect"])
prop("C08", "Well-keyed Morse code is decoded to the text that was sent",
 "Every text of letters, digits and the supported punctuation, keyed with standard timing at a usual speed, is decoded to exactly this text with one space per word gap, after the decoder had a short run-in to adapt to the speed. This holds at any speed from 12 to 36 WPM, for moderate timing jitter, after any earlier signal followed by a reset, and for the spectral demodulator as well as for the bare decoder.",
 ["inputs", "histories"], "all texts, speeds, jitter patterns within bounds, and previous signals",
 "The tests decode each code character once at the default speed and replay nine recorded signals without asserting the text.",
 ["cw/decode.go", "cw/spectral.go"], [("edge-timing decoder with adaptive thresholds", "cw/decode.go Decoder.Tick, onRisingEdge, onFallingEdge, AdaptiveThreshold"), ("decode table", "cw/decode.go generateDecodeTable"), ("spectral demodulator", "cw/spectral.go Tick")],
 ["text written to the decoder's output"])
prop("C09", "The Morse decoder stays sane on arbitrary keying",
 "For every sequence of key states the decoder terminates without a crash and writes only characters of the Morse alphabet, the unknown marker and spaces: at most one character per key-down period of at least two ticks and at most one space per key-down, so glitches of a single tick and continued silence produce no characters. Its adaptive thresholds stay positive and ordered (low < threshold < high). An overlong carrier followed by a pause does not damage the next characters, a reset makes the decoder behave like a new one, and watching it with a scope does not change the decoded text.",
 ["inputs", "histories"], "all key state sequences, including glitches, carriers, overlong characters and resets at any point",
 "The tests use clean keying only.",
 ["cw/decode.go", "cw/spectral.go"], [("abort and invalid handling", "cw/decode.go decodeCurrentChar, Tick, onFallingEdge"), ("AdaptiveThreshold bounds", "cw/decode.go AdaptiveThreshold.Put"), ("Reset/Clear", "cw/decode.go Reset, Clear")],
 ["decoded text, scope frames of the decoder"])
prop("C10", "Audio decoding is independent of buffering and controls always work",
 "An audio stream with a keyed tone at the pitch is decoded to the keyed text regardless of how the stream is split into writes, of the number of interleaved channels (only the first one counts), and of the amplitude if automatic scaling is enabled. While text is decoded, the reported speed follows the keyed speed. Every setting takes effect and can be read back immediately, from any goroutine. Closing at any moment, repeatedly and concurrently, never panics, races or blocks; afterwards writes and controls return promptly.",
 ["inputs", "schedules", "configurations"], "all chunkings, channel counts, amplitudes, and interleavings of writing, controlling and closing",
 "No test instantiates the audio demodulator.",
 ["cw/audio.go"], [("demodulator goroutine with input and operation channels", "cw/audio.go run, do, Write, Close")], ["decoded text, getters, goroutine progress, race detector"])
prop("C11", "A callsign is spotted exactly when it was heard often enough",
 "Every occurrence of a well-formed callsign of up to nine characters with a valid DXCC prefix, as a word of its own in the decoded text, is counted exactly once; occurrences with an invalid prefix and known false positives are ignored. With every counted occurrence, the callsign and its count and weight are reported, and as soon as a callsign's count plus its weight (1 for callsigns known to the supercheck database, else 0) reaches 3, a callsign with the highest weighted count is reported as spot. If the spot differs from the previous one, the previous one is reported as timed out before.",
 ["inputs", "histories"], "all texts composed of callsigns and other words, in any order and with any repetition, character by character or in chunks",
 "The tests count one callsign in one text and need reference data from the internet.",
 ["rx/text_processor.go"], [("text window and callsign expression", "rx/text_processor.go textWindow, callsignExp, findNextCallsign"), ("counting and best match", "rx/text_processor.go collectCallsign, bestMatch, isValidDXCC, callsignWeight")],
 ["calls of the callsign reporter"])
prop("C12", "Missing or broken reference data only disables its filter",
 "If the DXCC prefixes or the supercheck data are missing, unreadable, empty, corrupt, or cannot be updated, decoding and spotting continue without a crash. Without DXCC data every well-formed callsign is accepted, without supercheck data every callsign has the weight 0, and whichever of the two is available is still used.",
 ["fault_sequences", "configurations"], "all combinations of missing, unreadable, empty, garbage, valid, and non-updatable reference files, and changes between two sessions",
 "Without a network and local copies the existing tests crashed; with them only the good case is tested.",
 ["rx/text_processor.go"], [("setupDXCCFinder, setupSCPFinder", "rx/text_processor.go"), ("nil checks", "rx/text_processor.go isValidDXCC, isSCPCallsign")], ["calls of the callsign reporter, process exit"])
prop("C13", "A pending callsign is counted once after a pause; sessions are isolated",
 "A callsign at the very end of the received text is not counted before it is known to be complete: either because more text follows, or because nothing was received for more than 5 seconds when the timeout is checked; and however often the timeout is checked, it is counted once. After a restart of the text processing nothing of the earlier text has any influence: no counts, no spots, no partial text, no text that was not processed yet. The same holds for a listener that is attached to one signal after the other: it decodes each like a new listener.",
 ["histories", "inputs"], "all split points of a text, timeout checks at any time, restarts at any point",
 "The test triggers one timeout directly, bypassing the clock; restarts are not tested.",
 ["rx/text_processor.go"], [("write timeout", "rx/text_processor.go CheckWriteTimeout, writeTimeout"), ("Restart", "rx/text_processor.go Restart, textWindow.Reset")], ["calls of the callsign reporter, LastWrite"])
prop("C14", "The peaks table never loses or duplicates a signal that is in use",
 "Every bin belongs to at most one peak, and a peak occupies all of its bins or none. A new peak replaces peaks that are still unused, but never one that is in use or was already used; the next peak to listen to is always an unused one, and one is found whenever there is one. Peaks that are not in use disappear with the cleanup as soon as they are 2 minutes old, peaks in use stay.",
 ["histories"], "all sequences of put, force-put, activate, deactivate, find, cleanup and reset, with any clock advance",
 "The tests use single operations on one hand-made table.",
 ["rx/peaks.go"], [("PeaksTable", "rx/peaks.go Put, ForcePut, Activate, Deactivate, FindNext, Cleanup, Reset")], ["Get for every bin, FindNext"])
prop("C15", "The listener pool hands out each identifier at most once",
 "At any time, the bound listeners have pairwise different identifiers out of the fixed set of the pool, there are never more than the pool's size, and a listener can be bound exactly if fewer are bound. Released listeners leave the others untouched and their identifiers become available again, also if a listener is released more than once; a reset detaches and releases all. Iterating visits each bound listener exactly once.",
 ["histories"], "all sequences of bind, release and reset for all pool sizes",
 "The test performs one fixed sequence with three listeners.",
 ["rx/listener.go"], [("ListenerPool, IDPool", "rx/listener.go BindNext, Release, Reset, ForEach, First, Available")], ["bound listeners"])
prop("C16", "Listeners are attached and released according to their timeouts",
 "In strain mode at most 30 listeners are active, each with its own identifier, and for each identifier activation and deactivation alternate with the same frequency. A listener is released as soon as its signal produced no text for longer than the silence timeout or it listened for longer than the attachment timeout, and never earlier unless the receiver is stopped or re-tuned. No two listeners are attached to the same bin of the spectrum at a time, and a released signal is not attached again until its entry is 2 minutes old; stopping the receiver releases all listeners.",
 ["histories", "schedules"], "all sets of signals, clock advances, timeouts, and stop points",
 "No test runs a receiver.",
 ["rx/receiver.go", "rx/listener.go", "rx/peaks.go"], [("strain loop", "rx/receiver.go run"), ("TimeoutExceeded, Attach, Detach", "rx/listener.go")], ["reporter callbacks"])
prop("C17", "Calling stations in the spectrum are found, decoded and spotted",
 "If several stations with sufficient signal strength call CQ at different frequencies within the observed bandwidth, each of them is found, decoded, and spotted with its own callsign and a frequency within one bin of its true frequency, whatever other stations are active. No callsign that was not transmitted is spotted, and signals weaker than the threshold or in the configured edges of the noise measurement do not prevent this.",
 ["inputs", "schedules"], "all sets of stations (callsigns, frequencies, speeds, levels), noise, and the random choice of the next signal",
 "No test feeds IQ data.",
 ["rx/receiver.go", "rx/listener.go", "cw/decode.go", "dsp/fft.go"], [("receiver pipeline", "rx/receiver.go run"), ("peak selection", "rx/peaks.go FindNext")], ["reporter callbacks"])
prop("C18", "Decode mode prints the text of the signal at the VFO",
 "In decode mode, the text keyed at the current VFO frequency and only this text is written to the output, also if the VFO was set before the receiver was started (in the first second after a start, while the noise is measured, a few wrong characters may appear). When the VFO is moved, decoding continues with the signal at the new frequency and nothing of the former signal appears anymore; this works any number of times and after a restart of the receiver. At most one listener is active at a time, and it is reported with the frequency the VFO was tuned to.",
 ["histories", "inputs"], "all sequences of VFO and center frequency changes, starts and stops, with several signals present",
 "No test runs a receiver.",
 ["rx/receiver.go"], [("SetVFOOffset, tuneToVFO", "rx/receiver.go"), ("ChannelWriter", "rx/receiver.go")], ["standard output, reporter callbacks"])
prop("C19", "No input makes the receiver deaf",
 "Digital silence, NaN or infinite samples, full-scale overload, blocks of a wrong size or sample rate, empty blocks, and bursts faster than the receiver can process, in any order and number, never crash or block the receiver or the data source. After the disturbance, signals are found and decoded again as if it had not happened, as soon as the averaging windows contain regular data.",
 ["inputs", "fault_sequences"], "all sequences of disturbed and regular blocks",
 "No test feeds IQ data.",
 ["rx/receiver.go", "dsp/dsp.go", "dsp/fft.go"], [("input checks and skipping", "rx/receiver.go IQData"), ("noise averaging", "rx/receiver.go run, dsp/dsp.go RollingMean")], ["reporter callbacks, scope frames, progress"])
prop("C20", "Receiver controls are safe in any order and from any goroutine",
 "Starting, stopping, feeding data, changing any setting and querying the center frequency, in any order, repeatedly and concurrently, never panics, deadlocks or causes a data race. The last center frequency that was set is the one that is returned, whether the receiver runs or not. After a stop no data is processed and no listener is active; the receiver can be started again with another sample rate or block size.",
 ["schedules", "histories"], "all interleavings of the public operations from several goroutines",
 "No test runs a receiver, and the tests are not run with the race detector.",
 ["rx/receiver.go"], [("lifecycle lock, operation channel", "rx/receiver.go Start, Stop, do, IQData")], ["race detector, progress, return values, reporter callbacks"])
prop("C21", "Settings apply to every listener, whenever they are made",
 "Debounce threshold, silence timeout, attachment timeout, scope, detection threshold, edge width and center frequency have the same effect whether they are set before the receiver is started, while it is running without listeners, or while listeners are attached, and they apply to all present and later listeners until they are changed again, also across a restart.",
 ["histories", "configurations"], "all points in time for each setting relative to start, attachment and restart",
 "No test runs a receiver.",
 ["rx/receiver.go", "rx/listener.go", "cw/spectral.go"], [("newListener and setters", "rx/receiver.go newListener, SetX"), ("SpectralDemodulator.SetSignalDebounce", "cw/spectral.go")], ["scope frames, reporter callbacks"])
prop("C22", "Every connected telnet client gets every spot once and in order",
 "Each announced spot is delivered exactly once, complete, and in the order of announcement to every client that is connected and reading, however many clients there are and whenever others connect, disconnect or type. A spot is one line in the cluster format: reporter, frequency in kHz with one decimal, callsign, comment, and the UTC time of the spot as hhmm. A client that connects later gets the spots from then on.",
 ["schedules", "histories"], "all numbers of clients and producers, connect and disconnect times, and interleavings",
 "The only test formats one message.",
 ["telnet/telnet.go"], [("broadcast loop", "telnet/telnet.go Server.run"), ("removal of closed connections", "telnet/telnet.go removeConnection"), ("format", "telnet/telnet.go formatSpotMessage"), ("complete writes", "telnet/telnet.go writeAll")], ["bytes received by the clients"])
prop("C23", "A station is announced again only after the silence period",
 "A spot is announced if and only if the same callsign was not announced on the same frequency, rounded to full kHz, within the silence period before, measured between the timestamps of the spots and counted from the last announcement. Different callsigns and different rounded frequencies are independent of each other, and of several concurrent identical spots exactly one is announced. The silence period can be changed at any time.",
 ["histories", "inputs", "schedules"], "all sequences of spots, timestamps and period changes, also concurrent",
 "No test calls Spot.",
 ["telnet/telnet.go"], [("shouldAnnounce, registerSpot, newSpotHash", "telnet/telnet.go")], ["lines received by a client"])
prop("C24", "A client that does not read harms nobody but itself",
 "A telnet client that stops reading, resets its connection, or disappears at any moment neither delays nor suppresses the spots of other clients, does not block spotting, and does not block the shutdown. Stopping the server disconnects all clients, releases the port so that a new server can use it immediately, and returns promptly; stopping again or spotting afterwards has no effect and does not block.",
 ["fault_sequences", "schedules"], "all combinations of stalled, resetting and healthy clients and stop points",
 "No test opens a connection.",
 ["telnet/telnet.go"], [("send queue per connection, shutdown", "telnet/telnet.go Connection.Write, shutdown, Server.Stop, Spot")], ["lines received by the healthy clients, progress, port"])
prop("C25", "The telnet dialog does not depend on how the input is segmented",
 "A new client is greeted with the version and asked for its callsign; the first line it sends is answered with a welcome to exactly this callsign, every further line with an empty line, and this is independent of how the typed bytes are split into packets and of spots that are delivered in between. Each line ends with CR or LF, and all output is written completely, even if the network accepts only parts of it at once.",
 ["inputs", "schedules"], "all ASCII inputs and all segmentations of input and output",
 "No test opens a connection.",
 ["telnet/telnet.go"], [("prompt state machine", "telnet/telnet.go Connection.run, parseAnswerByte, startPrompt"), ("writeAll", "telnet/telnet.go")], ["bytes written to the connection"])
prop("C26", "Scope frames arrive with the content that was shown",
 "Each frame shown on the scope server arrives at a connected client as a frame of the same kind with the same stream, timestamp, channels, frequency range, values and markers, values being exact in single precision and in the original order. Nothing is added, lost or mixed up between frames, including empty frames, special values (infinity, NaN) and large spectra.",
 ["inputs"], "all time frames and spectral frames",
 "The round trip test checks only the stream name of two empty frames.",
 ["scope/server.go", "scope/client.go"], [("conversion to and from protobuf", "scope/server.go ShowTimeFrame, ShowSpectralFrame; scope/client.go readTimeFrame, readSpectralFrame")], ["frames received by the client"])
prop("C27", "A slow scope client is cut off alone and without gaps",
 "Every scope client receives a gapless sequence of the shown frames in order, starting with its registration. A client that does not keep up is disconnected instead of getting gaps, and neither its presence nor the simultaneous disconnection of several such clients delays or affects the other clients or the goroutine that shows the frames.",
 ["schedules", "histories"], "all numbers of fast, slow and leaving clients, and interleavings with the shown frames",
 "One test covers a single unresponsive stream.",
 ["scope/server_grpc.go"], [("non-blocking fan-out", "scope/server_grpc.go sendFrameToStreams, getFrameStream, GetFrames")], ["frames received by the clients, progress of the producer"])
prop("C28", "The scope can be started, stopped and fed at any time",
 "Showing frames, connecting clients, starting and stopping the scope server, in any order and concurrently, never panics, deadlocks or causes a data race. A stopped scope is inactive, ends all client streams, releases its port and can be started again; showing frames on an inactive scope, or on one that could not listen on its address, has no effect and does not block. A closed client can be opened again.",
 ["schedules", "fault_sequences"], "all interleavings of start, stop, show, connect, and an occupied address",
 "The tests start and stop once with pauses in between.",
 ["scope/server.go", "scope/server_grpc.go", "scope/client.go"], [("ScopeServer lock, grpcServer lock", "scope/server.go, scope/server_grpc.go Start, Stop, SendFrame")], ["race detector, progress, Active, client streams"])
prop("C29", "KiwiSDR IQ samples reach the receiver unaltered",
 "The samples of every IQ message are delivered exactly once, in order and with the announced sample rate, each being the signed 16 bit big-endian value divided by 32767. Delivered data is never modified afterwards, however long the receiver keeps it and whatever arrives next. Data that arrives before the sample rate is known, and messages of other types, deliver nothing.",
 ["inputs", "schedules"], "all message contents, sizes and orders",
 "The tests do not decode IQ messages.",
 ["kiwi/client.go"], [("decodeIQMessage, decodeIQBytes, readLoop", "kiwi/client.go")], ["handler callbacks"])
prop("C30", "A hostile or failing KiwiSDR cannot crash or block the client",
 "Whatever messages a KiwiSDR sends (truncated, unknown, malformed or of unexpected size) and whenever it refuses the session or the connection breaks, the client neither crashes nor blocks: the session ends at most, valid messages after ignored ones are still processed, and opening and closing always return. Closing is possible at any time, repeatedly and concurrently, and closes the network connection.",
 ["fault_sequences", "inputs", "schedules"], "all message sequences, disconnect points during setup and operation, and close points",
 "The tests decode well-formed messages only, without a connection.",
 ["kiwi/client.go", "kiwi/kiwi.go"], [("readLoop, writeLoop, shutdown", "kiwi/client.go"), ("block size check", "kiwi/kiwi.go IQData")], ["process state, progress, server-side view of the connection, race detector"])
prop("C31", "The KiwiSDR session is set up as requested",
 "The client connects to the given host and port (IPv4 or IPv6). After connecting, it authenticates with the given password and user name (escaped), selects uncompressed audio without AGC, and requests IQ mode with a passband of the given bandwidth centred at the given frequency, in this order and each exactly once, followed only by keep-alive messages. The handler is told about the connection exactly once, with the sample rate announced by the KiwiSDR.",
 ["inputs", "configurations"], "all credentials, frequencies and bandwidths, and all orders of the KiwiSDR's messages",
 "No test connects.",
 ["kiwi/client.go"], [("sendAuthentication, sendSetup, setVFO, writeLoop", "kiwi/client.go")], ["messages received by a simulated KiwiSDR, handler callbacks"])
prop("C32", "The TCI device drives the receiver and shows its spots",
 "Only IQ data, center frequency and VFO A of the configured TRX are used; each IQ message is processed completely and in order. Spotted callsigns are forwarded to the spotter with their frequency, and they and the active listeners are shown on the device if and only if this is enabled, and removed when they time out or are released. The connection may be lost at any time, also during a command, without blocking: after a reconnect the reception continues, and closing stops the IQ stream and always returns.",
 ["histories", "fault_sequences", "schedules"], "all sequences of device messages, settings before and after connecting, slow or missing replies, connection loss, and close points",
 "No test exists for this part.",
 ["tci/tci.go"], [("tciListener filters", "tci/tci.go SetDDS, SetIF, IQData"), ("asynchronous device operations", "tci/tci.go doAsync, run, command, Close"), ("onConnected", "tci/tci.go")], ["messages received by a simulated TCI device, spotter calls, reporter callbacks"])
prop("C33", "Host arguments are parsed into the address the user meant",
 "For every host argument, given as host, host:port, :port, IPv4, or IPv6 in brackets with or without port, or empty, the result has exactly the given host and port, with the default host or default port in place of a missing one. Invalid ports and malformed addresses are reported as errors, never silently changed or crashing.",
 ["inputs"], "all host arguments and defaults",
 "No test exists for this part.",
 ["cli/cli.go"], [("ParseTCPAddrArg, splitHostPort", "cli/cli.go")], ["returned address"])
prop("C34", "The program turns a TCI stream into cluster spots and ends on request",
 "The program connected to a TCI device announces the stations that are calling in the IQ stream to its telnet clients, with the configured reporter call, at most once per silence period and station, and reports listeners and callsigns on the standard output. In decode mode it prints the text at the VFO. On a termination signal it stops the IQ stream and ends promptly with success, whatever state the clients and the device are in. An invalid host or a telnet port that cannot be used ends it with an error.",
 ["inputs", "schedules", "configurations"], "all signal scenarios, flags, and termination points",
 "No test runs the program.",
 ["cmd/root.go", "cmd/strain.go", "cmd/tci.go", "cmd/decode.go", "rx/rx.go", "tci/tci.go", "telnet/telnet.go"], [("command wiring and signal handling", "cmd/root.go runWithCtx, cmd/tci.go runStrainTCI, runDecodeTCI"), ("TextReporter", "rx/rx.go")], ["telnet lines, standard output, TCI messages, exit status"])

prop("C35", "Sections of a block and peak geometry",
 "For every block and every section from one bin to another (both included), size, sub-block, sum, mean, maximum and the first position of the maximum are exactly those of the values inside the section, whatever the values outside are; this includes sections of a single bin, negative values and the first and last bin. The width of a peak counts both border bins, its center bin is the middle of them, its center frequency the middle between the border frequencies, and its width in Hz their difference.",
 ["inputs"], "all blocks of integers and floating point numbers, all sections, all peaks",
 "The tests call only a few of these functions, with one block.",
 ["dsp/fft.go"], [("Block", "dsp/fft.go Block.Subblock, Sum, Mean, Max"), ("Peak geometry", "dsp/fft.go Peak.Center, Width, WidthHz, CenterFrequency")],
 ["return values"])
prop("C36", "The program decodes the CW signal of a Pulseaudio source",
 "The program records the selected Pulseaudio source (the default source if none is selected) at the sample rate its demodulator works with, and prints the keyed text, for every pitch, sample rate, scale, threshold, debounce and speed given by flags; the speed preset applies from the first character on. With the scope enabled, it shows the magnitude of each block (of the scaled audio, limited to full scale), the configured threshold, and the states debounced as configured. A missing or refused source or server ends the program with an error. On a termination signal the program ends promptly with success, also when the server is gone.",
 ["inputs", "configurations", "fault_sequences"], "all sources, flags, keyed texts, and termination points",
 "No test runs the program or talks to a Pulseaudio server.",
 ["cmd/pulse.go", "cmd/decode.go", "cw/audio.go"], [("recording", "cmd/pulse.go runDecodePulse"), ("AudioDemodulator", "cw/audio.go")],
 ["requests to a simulated Pulseaudio server, standard output, exit status"])

prop("C37", "The scope shows what the receiver works with",
 "After every 100 processed blocks, and only then, an active scope gets one spectrum: per bin the mean in dBm of exactly these blocks, the current detection threshold (mean noise floor of the last 60 blocks plus the configured threshold), and the bin of the VFO (decode mode) or of an active listener (strain mode, none: -1). In every block, each active listener shows the value of its bin, the threshold derived from noise floor and noise variance, the resulting state, and the debounced state that its decoder works with. Listeners are attached to shown peaks only. Nothing is shown to an inactive scope.",
 ["inputs", "histories", "configurations"], "all signals, settings, restarts, and points in time at which the scope becomes active",
 "No test runs the receiver on data; the processing chain of a block and the cumulation of several are only tested as single functions.",
 ["rx/receiver.go", "cw/spectral.go", "cw/decode.go", "dsp/fft.go"], [("block processing", "rx/receiver.go Receiver.run"), ("demodulation", "cw/spectral.go SpectralDemodulator.Tick"), ("decoder frames", "cw/decode.go Decoder.Tick")],
 ["frames shown on the scope", "listener reports"])

prop("C38", "The program observes the IQ stream of a KiwiSDR",
 "The program opens the session at the KiwiSDR that is given by its flags. It processes exactly the received samples: its scope shows their spectrum, the detection threshold is the configured one (15 dB by default) above the noise floor inside of the observed bandwidth, and signals above the threshold are listened to and released again after the configured timeouts. An unreachable or invalid host, or an occupied telnet port, ends the program with an error. On a termination signal it closes the connection and ends promptly with success, in whatever state the KiwiSDR is.",
 ["inputs", "configurations", "fault_sequences"], "all flags, received samples, states of the KiwiSDR, and termination points",
 "No test runs the program or the KiwiSDR process.",
 ["cmd/kiwi.go", "cmd/root.go", "kiwi/kiwi.go", "kiwi/client.go"], [("flags", "cmd/kiwi.go runStrainKiwi"), ("process", "kiwi/kiwi.go Process")],
 ["messages to a simulated KiwiSDR", "frames of the program's scope", "exit status"])

prop("C39", "In strain mode, the standard output follows the VFO",
 "When the VFO is tuned to a station that is listened to, the standard output shows the text of this station from then on, until its listener is released or the VFO is moved. It never shows text of another station, and nothing if no listener is at the VFO: also not after the listener was released and its identifier is used for another station, and not after a change of the center frequency or a restart.",
 ["inputs", "histories"], "all stations, VFO movements, releases, changes of the center frequency and restarts",
 "No test runs the receiver in strain mode with output.",
 ["rx/receiver.go", "rx/listener.go"], [("selection of the listener", "rx/receiver.go Receiver.tuneToVFO"), ("ChannelWriter", "rx/receiver.go ChannelWriter")],
 ["standard output, listener reports"])

prop("C40", "The decoder decodes what its timing traces show",
 "With an active scope, the decoder shows every tick exactly once in each of its streams decode, signal_timing, gap_timing and signal: the key state, the number of ticks since the last change, and its thresholds. For every keying the decoded text follows from them: a signal (of at least two ticks) below on_threshold is a dit, above it a dah, from on_threshold_high_2 on it makes its character unknown; a gap (of at least two ticks) below off_threshold is part of the character, from off_threshold on it ends the character, and if it takes 5 times off_threshold_low or more (never below 4 times) it ends the word; after 10 times off_threshold without a change the character ends, too. The thresholds stay within the range of the durations that were seen and settle at the timing of regular keying. The audio demodulator shows each block of audio once in the stream audio: its magnitude, the configured threshold, the state that follows from them, and the debounced state, which is the key state of the decoder.",
 ["inputs", "histories", "configurations"], "all key state sequences, speeds, audio signals and settings",
 "No test looks at the frames of the decoder; the tests of the decoder use clean keying.",
 ["cw/decode.go", "cw/audio.go"], [("edges and thresholds", "cw/decode.go Decoder.Tick, onRisingEdge, onFallingEdge, AdaptiveThreshold"), ("audio blocks", "cw/audio.go run, scopeAudio")],
 ["frames shown on the scope, decoded text"])

prop("C41", "The program's scope shows the IQ stream of the TCI device",
 "With the scope enabled, 'strain tci' and 'decode tci' show on the configured scope address the spectrum of the IQ stream of the selected TRX, with the detection threshold that is configured (15 dB by default) above the noise floor measured within the device's IF limits, and mark the VFO (decode mode) or the active listener (strain mode). The demodulator of the marked bin shows its values, the states that follow from them, and the states debounced by the configured number of blocks (1 by default). At the end of the program the scope is closed.",
 ["inputs", "configurations"], "all flags, IF limits, VFO frequencies, noise levels, carriers and keyings",
 "No test runs the program.",
 ["cmd/root.go", "cmd/tci.go", "cmd/decode.go", "cmd/strain.go", "tci/tci.go", "rx/receiver.go", "scope/server.go"], [("flags", "cmd/tci.go runStrainTCI, runDecodeTCI"), ("settings after the connection", "tci/tci.go Process.onConnected")],
 ["frames of the program's scope"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
