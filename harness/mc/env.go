package main

import (
	"crypto/rand"
	"errors"
	"os"
	"path/filepath"
	"strconv"

	"github.com/gofrs/uuid"
)

// ---- random source -----------------------------------------------------------

// detRand is the process's random source: a stream that is a function of the execution's number, and
// a record of what was drawn. It is called from any thread; nothing here is visible to the race
// detector.
type detRand struct {
	state uint64
	rec   []byte // everything drawn, up to its capacity
	cuts  []int  // start offsets of the draws
	on    bool
	lost  bool
}

//go:norace
func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (r *detRand) Read(b []byte) (int, error) {
	for i := 0; i < len(b); {
		r.state += 0x9e3779b97f4a7c15
		v := mix(r.state)
		for j := 0; j < 8 && i < len(b); j++ {
			b[i] = byte(v)
			v >>= 8
			i++
		}
	}
	if r.on {
		n := len(r.rec)
		if n+len(b) > cap(r.rec) || len(r.cuts) == cap(r.cuts) {
			r.lost = true
		} else {
			r.rec = r.rec[:n+len(b)]
			for i := range b {
				r.rec[n+i] = b[i]
			}
			r.cuts = r.cuts[:len(r.cuts)+1]
			r.cuts[len(r.cuts)-1] = n
		}
	}
	return len(b), nil
}

// Record starts recording the draws of this execution.
func (r *detRand) Record() {
	if cap(r.rec) == 0 {
		r.rec = make([]byte, 0, 1<<20)
		r.cuts = make([]int, 0, 1<<15)
	}
	r.rec, r.cuts, r.on, r.lost = r.rec[:0], r.cuts[:0], true, false
}

var rng = &detRand{}

// ---- UUIDs ---------------------------------------------------------------------

// detUUID generates version 4 UUIDs that are distinct across executions and, within one, ordered by
// creation (so that map orders do not depend on random values). Forced values are handed out first.
type detUUID struct {
	*uuid.Gen
	hi     uint64
	n      uint32
	forced []uuid.UUID
	calls  int
	fail   int // number of failures still to be returned
}

var errRandom = errors.New("injected failure of the random source")

//go:norace
func (g *detUUID) NewV4() (uuid.UUID, error) {
	g.calls++
	if g.fail > 0 {
		g.fail--
		return uuid.Nil, errRandom
	}
	if len(g.forced) > 0 {
		u := g.forced[0]
		g.forced = g.forced[1:]
		return u, nil
	}
	g.n++
	var u uuid.UUID
	for i := 0; i < 6; i++ {
		u[i] = byte(g.hi >> (8 * i))
	}
	u[6], u[7] = 0x40|byte(g.n>>24)&0xf, byte(g.n>>16)
	u[8] = 0x80
	u[9] = byte(g.n >> 8)
	u[10] = byte(g.n)
	v := mix(g.hi + uint64(g.n))
	for i := 11; i < 16; i++ {
		u[i] = byte(v)
		v >>= 8
	}
	return u, nil
}

var uuids = &detUUID{}

var execNumber uint64

func init() {
	rand.Reader = rng
	uuids.Gen = uuid.NewGen()
	uuid.DefaultGenerator = uuids
}

// resetEnv puts the environment into its initial state before an execution.
func resetEnv(x *X) {
	execNumber++
	rng.state = mix(execNumber * 0x9e3779b97f4a7c15)
	rng.on = false
	uuids.hi = mix(execNumber+12345) | 1
	uuids.n = 0
	uuids.forced = nil
	uuids.calls, uuids.fail = 0, 0
	uuid.DefaultGenerator = uuids
	x.Defer(restoreZone)
}

// ---- scratch files ---------------------------------------------------------------

var scratchN int

// scratchFile returns a fresh path inside the worker's scratch directory.
func scratchFile(ext string) string {
	d := os.Getenv("MC_SCRATCH")
	if d == "" {
		var err error
		if d, err = os.MkdirTemp("", "mcs"); err != nil {
			die("%v", err)
		}
		os.Setenv("MC_SCRATCH", d)
	}
	scratchN++
	return filepath.Join(d, strconv.Itoa(scratchN)+ext)
}

func removeFile(p string) { os.Remove(p) }

// forceUUID makes u the next identifier drawn.
func forceUUID(u string) { uuids.forced = append(uuids.forced, uuid.Must(uuid.FromString(u))) }
