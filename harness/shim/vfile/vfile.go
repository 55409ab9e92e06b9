// Package vfile observes the file operations of bbolt: it records writes, truncations and syncs in
// order, and keeps a registry of open databases so that harnesses can close them.
package vfile

import (
	"os"
	"sync"
)

// Event is one file operation.
type Event struct {
	Kind string // write, truncate, sync
	Off  int64
	Data []byte
	Size int64
}

var (
	mu      sync.Mutex
	logs    = map[string]*[]Event{}
	closers = map[string][]func() error{}
	onEvent func(path string, ev Event) error
)

// Record starts recording events of the file.
func Record(path string) *[]Event {
	mu.Lock()
	defer mu.Unlock()
	l := &[]Event{}
	logs[path] = l
	return l
}

// Stop ends recording.
func Stop(path string) {
	mu.Lock()
	defer mu.Unlock()
	delete(logs, path)
}

// OnEvent installs a hook called before each operation; an error makes the operation fail.
func OnEvent(f func(path string, ev Event) error) {
	mu.Lock()
	defer mu.Unlock()
	onEvent = f
}

// Partial is returned by a hook to make a write stop after N bytes and fail.
type Partial struct{ N int }

func (p Partial) Error() string { return "partial write" }

func add(path string, ev Event) error {
	mu.Lock()
	defer mu.Unlock()
	if onEvent != nil {
		if err := onEvent(path, ev); err != nil {
			return err
		}
	}
	if l := logs[path]; l != nil {
		*l = append(*l, ev)
	}
	return nil
}

// Opened registers an open database.
func Opened(f *os.File, closer func() error) {
	mu.Lock()
	defer mu.Unlock()
	closers[f.Name()] = append(closers[f.Name()], closer)
}

// CloseAll closes every database opened on the path.
func CloseAll(path string) {
	mu.Lock()
	cs := closers[path]
	delete(closers, path)
	mu.Unlock()
	for _, c := range cs {
		_ = c()
	}
}

// WriteAt returns the positional write function of the file.
func WriteAt(f *os.File) func(b []byte, off int64) (int, error) {
	return func(b []byte, off int64) (int, error) {
		c := make([]byte, len(b))
		copy(c, b)
		if err := add(f.Name(), Event{Kind: "write", Off: off, Data: c}); err != nil {
			if p, ok := err.(Partial); ok && p.N > 0 && p.N < len(b) {
				mu.Lock()
				if l := logs[f.Name()]; l != nil {
					*l = append(*l, Event{Kind: "write", Off: off, Data: c[:p.N]})
				}
				mu.Unlock()
				n, _ := f.WriteAt(b[:p.N], off)
				return n, err
			}
			return 0, err
		}
		return f.WriteAt(b, off)
	}
}

// Truncate sets the file size.
func Truncate(f *os.File, size int64) error {
	if err := add(f.Name(), Event{Kind: "truncate", Size: size}); err != nil {
		return err
	}
	return f.Truncate(size)
}

// Sync marks everything before it durable. No real sync is needed: crashes are simulated.
func Sync(f *os.File) error { return add(f.Name(), Event{Kind: "sync"}) }
