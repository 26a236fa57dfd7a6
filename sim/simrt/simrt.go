// Package simrt binds the simulator hooks that rt/patch.py adds to the runtime.
package simrt

import _ "unsafe"

func rtBegin(seed uint64, strategy, gapMean, horizon uint32, budget uint64, replay bool, inPick []uint32, inPre []uint64, outPick []uint32, outPre []uint64)
func rtEnd() (steps, picks, switches, hash uint64, nPick, nPre int, over, trunc, deadlock bool, maxRunq uint32)
func rtInfo() (steps uint64, over bool)
func rtBubble(f func())
func rtPoint()

// Point is a potential preemption point.
func Point() { rtPoint() }

// Sched describes how a run is scheduled.
type Sched struct {
	Seed     uint64   `json:"seed"`
	Strategy uint32   `json:"strategy"` // 0 uniform, 1 mostly FIFO, 2 random priorities, 3 most recent first
	GapMean  uint32   `json:"gap"`      // mean distance of preemptions in points; 0: none
	Horizon  uint32   `json:"horizon"`
	Explicit bool     `json:"explicit,omitempty"`
	Picks    []uint32 `json:"picks,omitempty"`
	Pres     []uint64 `json:"pres,omitempty"`
}

// Result is what the scheduler did.
type Result struct {
	Steps, Picks, Switches, Hash uint64
	PickLog                      []uint32
	PreLog                       []uint64
	Trunc                        bool
	MaxRunq                      uint32
}

var pickBuf = make([]uint32, 1<<18)
var preBuf = make([]uint64, 1<<18)

// Run executes f in a fresh bubble of simulated time.
func Run(s *Sched, budget uint64, f func()) (r Result) {
	rtBegin(s.Seed, s.Strategy, s.GapMean, s.Horizon, budget, s.Explicit, s.Picks, s.Pres, pickBuf, preBuf)
	rtBubble(f)
	var np, npre int
	var over, dl bool
	r.Steps, r.Picks, r.Switches, r.Hash, np, npre, over, r.Trunc, dl, r.MaxRunq = rtEnd()
	_, _ = over, dl
	r.PickLog = pickBuf[:np]
	r.PreLog = preBuf[:npre]
	return r
}

// Steps is the number of preemption points passed in the current run: the
// simulator's global event sequence number.
func Steps() uint64 { s, _ := rtInfo(); return s }

// SetBuffers replaces the decision logs.
func SetBuffers(picks []uint32, pres []uint64) { pickBuf, preBuf = picks, pres }

// ClearBuffers zeroes the decision logs.
func ClearBuffers() {
	clear(pickBuf)
	clear(preBuf)
}
