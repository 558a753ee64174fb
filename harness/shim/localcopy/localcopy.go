// Package localcopy replaces github.com/ftl/localcopy in the verification builds: it has the same
// API, but never uses the network and never touches the user's home directory. The "remote" and the
// local files live in a directory that the harness controls, and faults can be injected.
package localcopy

import (
	"bufio"
	"errors"
	"io"
	"os"
	"path/filepath"
	"sync"
)

// ReadFunc reads a value using the given reader.
type ReadFunc func(r io.Reader) (interface{}, error)

var (
	mu     sync.Mutex
	dir    = os.Getenv("VERIF_LOCALCOPY_DIR")
	open   func(name string) (io.ReadCloser, error)
	update func(url, name string) (bool, error)

	loads, updates int
)

// SetDir sets the directory that contains the local copies.
func SetDir(d string) { mu.Lock(); dir = d; mu.Unlock() }

// SetOpen replaces opening of a local file (by base name), nil restores the default.
func SetOpen(f func(name string) (io.ReadCloser, error)) { mu.Lock(); open = f; mu.Unlock() }

// SetUpdate replaces the update of a local file (by base name), nil restores the default (no network).
func SetUpdate(f func(url, name string) (bool, error)) { mu.Lock(); update = f; mu.Unlock() }

// Counts of the load and update calls.
func Counts() (int, int) { mu.Lock(); defer mu.Unlock(); return loads, updates }

var errNoNetwork = errors.New("shim: no network")

// LoadLocal loads the local copy from the local file system.
func LoadLocal(localFilename string, read ReadFunc) (interface{}, error) {
	mu.Lock()
	loads++
	d, o := dir, open
	mu.Unlock()
	name := filepath.Base(localFilename)
	var in io.ReadCloser
	var err error
	switch {
	case o != nil:
		in, err = o(name)
	case d != "":
		in, err = os.Open(filepath.Join(d, name))
	default:
		err = os.ErrNotExist
	}
	if err != nil {
		return nil, err
	}
	defer in.Close()
	value, err := read(bufio.NewReader(in))
	if err != nil {
		return nil, err
	}
	return value, nil
}

// LoadRemote loads the resource from the given remote location.
func LoadRemote(remoteURL string, read ReadFunc) (interface{}, error) { return nil, errNoNetwork }

// Download downloads the resource from the given remote URL and stores it locally.
func Download(remoteURL, localFilename string, read ReadFunc) error { return errNoNetwork }

// NeedsUpdate checks whether the local copy needs to be updated from the given remote URL.
func NeedsUpdate(remoteURL, localFilename string) (bool, error) { return false, errNoNetwork }

// Update updates the local copy from the given remote URL, but only if an update is needed.
func Update(remoteURL, localFilename string, read ReadFunc) (bool, error) {
	mu.Lock()
	updates++
	u := update
	mu.Unlock()
	if u != nil {
		return u(remoteURL, filepath.Base(localFilename))
	}
	return false, errNoNetwork
}
