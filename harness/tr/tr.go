// Package tr writes traces as newline separated JSON events.
package tr

import (
	"bufio"
	"encoding/json"
	"os"
	"sync"
)

// M is an event's fields.
type M map[string]any

// W writes events of consecutive runs to a file, a run at a time.
type W struct {
	mu  sync.Mutex
	f   *os.File
	b   *bufio.Writer
	run []M
	N   int
}

// Open creates (or with app extends) the file.
func Open(path string, app bool) (*W, error) {
	fl := os.O_CREATE | os.O_WRONLY
	if app {
		fl |= os.O_APPEND
	} else {
		fl |= os.O_TRUNC
	}
	f, err := os.OpenFile(path, fl, 0o644)
	if err != nil {
		return nil, err
	}
	return &W{f: f, b: bufio.NewWriterSize(f, 1<<20)}, nil
}

// Log adds an event to the current run.
func (w *W) Log(e string, m M) {
	if m == nil {
		m = M{}
	}
	m["e"] = e
	w.mu.Lock()
	w.run = append(w.run, m)
	w.mu.Unlock()
}

// Len returns the number of events of the current run.
func (w *W) Len() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.run)
}

// End writes the current run.
func (w *W) End() {
	w.mu.Lock()
	defer w.mu.Unlock()
	enc := json.NewEncoder(w.b)
	enc.SetEscapeHTML(false)
	for _, m := range w.run {
		if err := enc.Encode(m); err != nil {
			panic(err)
		}
	}
	w.run = w.run[:0]
	w.N++
	w.b.Flush()
}

// Drop forgets the current run.
func (w *W) Drop() {
	w.mu.Lock()
	w.run = w.run[:0]
	w.mu.Unlock()
}

// Close flushes and closes.
func (w *W) Close() { w.b.Flush(); w.f.Close() }
