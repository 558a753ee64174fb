package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/ftl/localcopy"
	"github.com/ftl/sdrainer/rx"

	"verif/vh"
)

type fault struct {
	name      string
	open      func(content string, c *vh.C) (io.ReadCloser, error)
	available bool
	undefined bool // the content is arbitrary: only decide that nothing crashes
}

type failingReader struct {
	r io.Reader
	n int
}

func (f *failingReader) Read(p []byte) (int, error) {
	if f.n <= 0 {
		return 0, errors.New("injected read error")
	}
	n, err := f.r.Read(p[:min(len(p), f.n)])
	f.n -= n
	return n, err
}

func text(s string) (io.ReadCloser, error) { return io.NopCloser(strings.NewReader(s)), nil }

func garbage(c *vh.C, lines bool) string {
	b := make([]byte, 1+c.Intn(3000))
	c.Read(b)
	if !lines {
		b = bytes.ReplaceAll(b, []byte("\n"), []byte("x"))
	}
	return string(b)
}

var faults = []fault{
	{"missing", func(string, *vh.C) (io.ReadCloser, error) { return nil, os.ErrNotExist }, false, false},
	{"no permission", func(string, *vh.C) (io.ReadCloser, error) { return nil, os.ErrPermission }, false, false},
	{"empty", func(string, *vh.C) (io.ReadCloser, error) { return text("") }, false, false},
	{"only whitespace", func(string, *vh.C) (io.ReadCloser, error) { return text("\n") }, false, false},
	{"garbage without lines", func(_ string, c *vh.C) (io.ReadCloser, error) { return text(garbage(c, false)) }, false, false},
	{"garbage", func(_ string, c *vh.C) (io.ReadCloser, error) { return text(garbage(c, true)) }, false, true},
	{"html", func(string, *vh.C) (io.ReadCloser, error) {
		return text("<html>\n<body>503: try again later</body>\n</html>\n")
	}, false, true},
	{"read error at once", func(s string, c *vh.C) (io.ReadCloser, error) {
		return io.NopCloser(&failingReader{strings.NewReader(s), 0}), nil
	}, false, false},
	{"truncated", func(s string, c *vh.C) (io.ReadCloser, error) { return text(s[:c.Intn(len(s))]) }, false, true},
	{"read error", func(s string, c *vh.C) (io.ReadCloser, error) {
		return io.NopCloser(&failingReader{strings.NewReader(s), c.Intn(len(s))}), nil
	}, false, true},
	{"valid", func(s string, c *vh.C) (io.ReadCloser, error) { return text(s) }, true, false},
}

var updates = []struct {
	name string
	f    func(url, name string) (bool, error)
}{
	{"fails", func(url, name string) (bool, error) { return false, errors.New("injected: no network") }},
	{"not necessary", func(url, name string) (bool, error) { return false, nil }},
	{"done", func(url, name string) (bool, error) { return true, nil }},
	{"fails during download", func(url, name string) (bool, error) { return true, errors.New("injected: connection lost") }},
}

func c12(r *vh.Run) {
	r.Rule("all combinations of a fault of the DXCC file, a fault of the supercheck file, and the outcome of the update, each for a sequence of two processors with different faults and several random texts; the reports must be those of the model for the data that is available; distinct: (faults, text)")
	rounds := r.N(6, 60)
	for round := 0; round < rounds; round++ {
		for _, d := range faults {
			for _, s := range faults {
				r.Case(fmt.Sprintf("fault/%d/%s+%s", round, d.name, s.name), func(c *vh.C) {
					current := map[string]*fault{}
					localcopy.SetOpen(func(name string) (io.ReadCloser, error) {
						if strings.HasPrefix(strings.ToLower(name), "cty") {
							return current["cty"].open(ctyDat(), c)
						}
						return current["scp"].open(scpDat(), c)
					})
					u := updates[c.Intn(len(updates))]
					localcopy.SetUpdate(u.f)
					second := c.Intn(len(faults))
					for session, pair := range [][2]*fault{{&d, &s}, {&faults[second], &faults[c.Intn(len(faults))]}} {
						current["cty"], current["scp"] = pair[0], pair[1]
						_ = session
						text := strings.Join(randomWords(c.Rand, 20+c.Intn(40)), " ")
						c.Key(fmt.Sprint(pair[0].name, pair[1].name, u.name, text))
						c.Count("DXCC "+pair[0].name, 1)
						c.Count("supercheck "+pair[1].name, 1)
						c.Count("update "+u.name, 1)
						if pair[0].undefined || pair[1].undefined {
							tolerantText(c, text)
						} else {
							runText(c, refData{pair[0].available, pair[1].available}, text)
						}
					}
				})
			}
		}
	}
}

// tolerantText only requires that nothing crashes or blocks, and that what is counted was really written.
func tolerantText(c *vh.C, text string) {
	rec := &recorder{}
	c.Within("the text processor", func() {
		p := rx.NewTextProcessor(nil, newClock(), rec)
		p.Start()
		for _, s := range segments(c.Rand, text+" k ") {
			p.Write([]byte(s))
		}
		p.Stop()
	})
	upper := strings.ToUpper(text)
	for _, e := range rec.all() {
		if !strings.Contains(upper, e.Call) {
			c.Failf("%v, but the text is %q", e, text)
		}
	}
	c.Count("events", len(rec.all()))
}
