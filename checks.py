"""The registered checks: what runs, and what it means. Used by check.py and tools/gen_manifest.py."""

# property -> dict(stages=[(harness, race)], technique, level, note, assumptions)
CHECKS = {}


def check(id, stages, technique, note, assumptions=(), level="exploration", timeout=600, binaries=(), parts=1):
    CHECKS[id] = dict(stages=stages, technique=technique, level=level, note=note,
                      assumptions=list(assumptions), timeout=timeout, binaries=list(binaries), parts=parts)


DSP = [("h_dsp", False)]
check("C01", DSP, "runtime monitoring: reference-model oracle (naive DFT) over random block sequences",
      "held on the explored blocks: every bin of thousands of random IQ blocks of random even sizes is compared with a DFT computed by definition; not exhaustive over sizes and samples",
      ["floating point comparison within rounding tolerances"])
check("C02", DSP, "runtime monitoring: exact arithmetic oracle over random mappings and frequencies",
      "held on the explored mappings, bins and frequencies (hundreds of thousands per run)")
check("C03", DSP, "runtime monitoring: reference segmentation oracle over random spectra",
      "held on the explored spectra; peaks are recomputed independently from the statement; NaN values are not part of the workload")
check("C04", DSP, "runtime monitoring: reference-window oracle and metamorphic disturbance of the irrelevant bins",
      "held on the explored spectra and edge widths")
check("C05", DSP, "runtime monitoring: model-based oracle over insertion histories",
      "held on the explored insertion histories (up to 200000 steps) within rounding tolerances")
check("C06", DSP, "runtime monitoring: run-length model over exhaustive short and random long histories",
      "exhaustive for sequences of 14 raw values and thresholds 0 to 6; sampled beyond")
check("C07", DSP, "runtime monitoring: naive DFT oracle over random tones and buffers",
      "held on the explored pitches, sample rates and buffers")
check("C33", DSP, "runtime monitoring: table and mutation oracle over address arguments",
      "held on all combinations of the listed host and port forms and on random addresses; host names other than localhost are not resolved, because there is no network")

TITLES = {}
check("C08", [("h_cw", False)], "runtime monitoring: round trip oracle (independent Morse encoder) over random texts, speeds and histories",
      "held on the explored texts; jitter up to 10% of a dit (3% above 28 WPM, where a dit is only three ticks long); the run-in of two to four words is not judged",
      ["keying with the standard 1:3:7 timing, ticks of 10.7 ms as used by the receiver"])
check("C09", [("h_cw", False)], "runtime monitoring: safety monitors over decoded text and scope frames, differential comparison with a new decoder",
      "held on the explored keyings; thresholds are observed in the scope frames at every tick")
check("C10", [("h_cw", False), ("h_cw", True)], "runtime monitoring: round trip oracle for audio streams, race detector and watchdog for concurrent use",
      "held on the explored streams, settings and interleavings; the race detector reports only races that occurred",
      ["writes contain whole frames of interleaved channels", "pitches for which the tone falls in the filter bin"])

RX = [("h_rx", False)]
check("C11", RX, "runtime monitoring: reference model of counting and spotting over random texts, compared callback by callback",
      "held on the explored texts, in random segmentations; reference data come from a stand-in for the update package, real parsers are used",
      ["callsigns with a suffix are written in one piece"])
check("C12", RX, "runtime monitoring: fault injection into the reference data, oracle over the reported callsigns",
      "held on all combinations of the listed file states for both files, and on random changes between two sessions",
      ["garbage files that happen to parse as reference data are not judged"])
check("C13", RX, "runtime monitoring: reference model with simulated clock over random texts, pauses and restarts",
      "held on the explored histories")
check("C14", RX, "runtime monitoring: reference model over random operation histories with simulated clock",
      "held on the explored histories; every bin is inspected after every operation")
check("C15", RX, "runtime monitoring: reference model over random operation histories",
      "held on the explored histories for pool sizes of 0 to 40")
check("C16", RX, "runtime monitoring: event monitor over reporter callbacks with simulated clock and synthetic signals",
      "held on the explored histories of carriers, keyed stations, clock steps and settings",
      ["the signals are not close to the threshold of the demodulator"])
check("C17", RX, "runtime monitoring: end-to-end oracle over synthetic bands of stations",
      "held on the explored bands; stations are at least 30 bins apart and 39 to 43 dB above the noise, because the spectrum has no window function",
      ["keying with the standard timing at 15 to 28 WPM"])
check("C18", RX, "runtime monitoring: end-to-end oracle over the captured standard output with synthetic signals",
      "held on the explored sequences of VFO, center frequency, start and stop operations; words are compared with a tolerance of one mistake per 30 characters, because dits last only a few blocks",
      ["the VFO is tuned to within a fifth of a bin of a station, or at least 3.3 kHz away from all stations"], parts=8)
check("C19", RX, "runtime monitoring: fault injection into the IQ stream, recovery oracle over reports and output",
      "held on the explored sequences of disturbances; after finite disturbances above the noise the recovery is judged after the spurious signals were released",
      ["the cleanup of old signals takes place at least once per second"], parts=8)
check("C20", [("h_rx", False), ("h_rx", True)], "runtime monitoring: race detector and blocking watchdog over concurrent operations, reference model over sequences",
      "held on the explored operation sequences and interleavings; the race detector reports only races that occurred", parts=8)
check("C21", [("h_rx", False), ("h_rx", True)], "runtime monitoring: monitors over scope frames and reports for each setting at each point in time, race detector",
      "held for all settings at all listed points in time, for random values", parts=8)

TEL = [("h_telnet", False), ("h_telnet", True)]
check("C22", TEL, "runtime monitoring: offline exactly-once and order checker over the lines received by all clients, race detector",
      "held on the explored numbers of clients and producers and their interleavings; lines are compared with the announced spots field by field",
      ["clients use the loopback network", "fewer than 1000 spots are pending for a client"])
check("C23", TEL, "runtime monitoring: model-based oracle over random spot histories and concurrent spots, race detector",
      "held on the explored histories; timestamps do not decrease per callsign and frequency, frequencies are not exactly between two kHz",
      ["timestamps in UTC"])
check("C24", TEL, "runtime monitoring: fault injection (stalled and resetting clients, stop at random points), blocking watchdog, race detector",
      "held on the explored fault sequences; a call counts as blocked if its goroutine waits in sdrainer's code for 20 s")
check("C25", [("h_telnet", False)], "runtime monitoring: dialog model over random inputs and segmentations, with partial writes",
      "held on the explored inputs and segmentations; ASCII only")

check("C26", [("h_scope", False)], "runtime monitoring: round trip oracle over random frames",
      "held on the explored frames; identifiers are valid UTF-8, spectra have up to 500000 values")
SCOPE = [("h_scope", False), ("h_scope", True)]
check("C27", SCOPE, "runtime monitoring: online sequence checker over numbered frames with fast, stalled, lazy and leaving clients, blocking watchdog, race detector",
      "held on the explored mixes of clients and interleavings")
check("C28", SCOPE, "runtime monitoring: race detector and blocking watchdog over concurrent operations, reference model over sequences, fault injection (occupied address)",
      "held on the explored sequences and interleavings; the race detector reports only races that occurred")

KIWI = [("h_kiwi", False), ("h_kiwi", True)]
check("C29", KIWI, "runtime monitoring: content and order oracle over deliveries from a simulated KiwiSDR, aliasing monitor, race detector",
      "held on the explored message sequences; delivered buffers are compared again at the end of each session")
check("C30", KIWI, "runtime monitoring: fault injection (hostile messages, broken connections, concurrent close) with a simulated KiwiSDR, blocking watchdog, race detector",
      "held on the explored message and fault sequences",
      ["a KiwiSDR that accepts the connection, but never answers the websocket handshake, is ended by the 45 s timeout of the websocket library and not explored"])
check("C31", [("h_kiwi", False)], "runtime monitoring: protocol monitor over the messages received by a simulated KiwiSDR",
      "held on the explored credentials, frequencies and bandwidths")


TCI = [("h_rx", False), ("h_rx", True)]
check("C32", TCI, "runtime monitoring: simulated TCI device with a model of its display, differential oracle over scope frames, fault injection (lost connections, missing replies), blocking watchdog, race detector",
      "held on the explored sessions; the frames of the process are compared with a second receiver that gets only the data of the configured TRX",
      ["the device sends IQ messages of 2048 samples, as defined by TCI", "a connection that is lost before the device is ready is never retried by the TCI library and not explored"])
check("C34", TCI, "runtime monitoring: end-to-end oracle over the real program with simulated TCI device, telnet clients and signals, race detector",
      "held on the explored runs of the program; stations as in C17",
      ["one termination signal is sent"], binaries=["sdrainer"])

check("C35", DSP, "runtime monitoring: direct-computation oracle over random blocks, sections and peaks",
      "held on the explored blocks and sections; all sections of short blocks, random sections of long ones")
check("C36", [("h_cw", False)], "runtime monitoring: end-to-end oracle over the real program with a simulated Pulseaudio server, fault injection (missing source, refused recording, lost server)",
      "held on the explored runs of the program",
      ["a Pulseaudio server that accepts requests and never answers them is not explored, because the library waits for it",
       "data races inside the Pulseaudio library are not judged"], binaries=["sdrainer"])

check("C37", RX, "runtime monitoring: differential oracle (own Fourier transform, noise measurement and debouncing) over all frames shown by the receiver",
      "held on the explored signals, settings and restarts; values within 0.03 dB; blocks are skipped in no workload",
      ["which of several active listeners the spectrum marks is not judged"])
check("C38", KIWI, "runtime monitoring: end-to-end oracle over the real program with a simulated KiwiSDR and a client of its scope, fault injection, race detector",
      "held on the explored runs of the program; spectra that the scope's client missed are not judged",
      ["the KiwiSDR sends blocks of 512 samples at 12 kHz", "one termination signal is sent"], binaries=["sdrainer"])

check("C40", [("h_cw", False)], "runtime monitoring: trace oracle that reconstructs the decoded text tick by tick from the key states and the thresholds on the scope",
      "held on the explored keyings (regular, jittered, arbitrary, glitches, carriers) and audio streams; whether a gap between 4 and 5 times the short gap ends a word is not judged")
check("C39", RX, "runtime monitoring: output monitor over a VFO that moves between stations while their listeners come and go",
      "held on the explored sequences; words, not single characters, are compared",
      ["stations are at least 45 bins apart and the VFO is tuned to within 20 Hz of a station, or at least 25 bins away from all stations"], parts=8)
check("C41", TCI, "runtime monitoring: end-to-end oracle over the frames of the real program's scope with a simulated TCI device (own Fourier transform, noise measurement and debouncing), race detector",
      "held on the explored runs of the program; frames that the scope's client missed are not judged",
      ["the IQ stream repeats blocks of 512 samples, so that skipped blocks do not matter"], binaries=["sdrainer"])
