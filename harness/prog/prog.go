// Package prog runs the real program.
package prog

import (
	"bytes"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/vh"
)

// Program is a running sdrainer.
type Program struct {
	Args  []string
	State error // valid when the program is not running anymore

	cmd    *exec.Cmd
	mu     sync.Mutex
	out    bytes.Buffer
	err    bytes.Buffer
	exited chan struct{}
}

type lockedWriter struct {
	mu  *sync.Mutex
	buf *bytes.Buffer
}

func (w *lockedWriter) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.buf.Len() > 1<<20 {
		return len(b), nil
	}
	return w.buf.Write(b)
}

// Binary returns the program to run.
func Binary() string {
	bin := os.Getenv("VERIF_BIN_SDRAINER")
	if bin == "" {
		panic("VERIF_BIN_SDRAINER is not set")
	}
	return bin
}

// Start the program in the given directory with additional environment variables.
func Start(c *vh.C, bin, dir string, env []string, args ...string) *Program {
	p := &Program{cmd: exec.Command(bin, args...), Args: args, exited: make(chan struct{})}
	p.cmd.Stdout = &lockedWriter{&p.mu, &p.out}
	p.cmd.Stderr = &lockedWriter{&p.mu, &p.err}
	p.cmd.Dir = dir
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "TZ=") && !strings.HasPrefix(e, "VERIF_") && !strings.HasPrefix(e, "PULSE_") {
			p.cmd.Env = append(p.cmd.Env, e)
		}
	}
	p.cmd.Env = append(p.cmd.Env, env...)
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		c.Inconclusive("cannot start the program: %v", err)
		c.Abort()
	}
	go func() {
		p.State = p.cmd.Wait()
		close(p.exited)
	}()
	return p
}

// Output is what the program wrote to its standard output.
func (p *Program) Output() string { p.mu.Lock(); defer p.mu.Unlock(); return p.out.String() }

// Errors is what the program wrote to its standard error.
func (p *Program) Errors() string { p.mu.Lock(); defer p.mu.Unlock(); return p.err.String() }

// Running tells whether the program did not end yet.
func (p *Program) Running() bool {
	select {
	case <-p.exited:
		return false
	default:
		return true
	}
}

// Exited is closed when the program ended.
func (p *Program) Exited() <-chan struct{} { return p.exited }

// Kill the program.
func (p *Program) Kill() {
	p.cmd.Process.Kill()
	<-p.exited
}

// End sends the signal and expects that the program ends with success.
func (p *Program) End(c *vh.C, sig syscall.Signal, detail func() any) {
	if !p.Running() {
		c.FailWith(detail(), "the program ended without being asked: %v", p.State)
		c.Abort()
	}
	p.cmd.Process.Signal(sig)
	started := time.Now()
	select {
	case <-p.exited:
	case <-time.After(15 * time.Second):
		c.FailWith(detail(), "the program does not end after the signal %v", sig)
		c.Abort()
	}
	if p.State != nil {
		c.FailWith(detail(), "the program ends after the signal %v with %v", sig, p.State)
		c.Abort()
	}
	c.Count("ended", 1)
	if d := time.Since(started); d > 3*time.Second {
		c.Count("ended after more than 3 s", 1)
	}
}
