package runtime

// Deterministic-simulation support, added to the Go runtime by /verif/rt/patch.py
// through "go build -overlay". With simOn == false (the default) every hook is a
// no-op and the runtime behaves as shipped.

import "unsafe"

var simOn bool

// simStartup replaces the per-process random seed (map hashing, runtime.rand).
var simStartup = [32]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32}

type simState struct {
	rng      uint64 // decision stream
	rng2     uint64 // runtime.rand stream seen by simulated goroutines
	strategy uint32
	gapMean  uint32
	nextID   uint64

	steps   uint64 // preemption points passed
	budget  uint64
	nextPre uint64 // step of the next preemption (0: none)
	over    bool

	replay  bool
	inPick  []uint32
	inPickN int
	inPre   []uint64
	inPreN  int

	outPick  []uint32
	outPickN int
	outPre   []uint64
	outPreN  int
	truncOut bool

	picks    uint64 // scheduling decisions with more than one candidate
	switches uint64
	hash     uint64
	last     uint64
	maxRunq  uint32

	// PCT-like strategy
	chgAt  [8]uint64
	chgN   uint32
	demote [8]uint64 // simIDs demoted, in order
	demN   uint32

	deadlock bool
	timerSeq uint32
}

var sim simState

//go:nosplit
func simMix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:linkname simBegin verif/simrt.rtBegin
func simBegin(seed uint64, strategy, gapMean, horizon uint32, budget uint64, replay bool,
	inPick []uint32, inPre []uint64, outPick []uint32, outPre []uint64) {
	sim = simState{}
	sim.rng = seed
	sim.rng2 = seed ^ 0x5bf0363546353d21
	sim.strategy = strategy
	sim.gapMean = gapMean
	sim.budget = budget
	sim.replay = replay
	sim.inPick = inPick
	sim.inPre = inPre
	sim.outPick = outPick
	sim.outPre = outPre
	sim.hash = 0xcbf29ce484222325
	if strategy == 2 && !replay {
		if horizon == 0 {
			horizon = 1000
		}
		for i := range sim.chgAt {
			sim.chgAt[i] = simMix(&sim.rng) % uint64(horizon)
		}
		sim.chgN = uint32(simMix(&sim.rng) % 6)
	}
	simNextPre()
	simOn = true
}

//go:linkname simEnd verif/simrt.rtEnd
func simEnd() (steps, picks, switches, hash uint64, nPick, nPre int, over, trunc, deadlock bool, maxRunq uint32) {
	simOn = false
	return sim.steps, sim.picks, sim.switches, sim.hash, sim.outPickN, sim.outPreN, sim.over, sim.truncOut, sim.deadlock, sim.maxRunq
}

//go:linkname simInfo verif/simrt.rtInfo
func simInfo() (steps uint64, over bool) { return sim.steps, sim.over }

//go:linkname simSynctestRun verif/simrt.rtBubble
func simSynctestRun(f func()) { synctestRun(f) }

//go:linkname simSynctestWait verif/simrt.rtWait
func simSynctestWait() { synctestWait() }

func simNextPre() {
	if sim.replay {
		if sim.inPreN < len(sim.inPre) {
			sim.nextPre = sim.inPre[sim.inPreN]
			sim.inPreN++
		} else {
			sim.nextPre = 0
		}
		return
	}
	if sim.gapMean == 0 {
		sim.nextPre = 0
		return
	}
	// heavy-tailed gaps: mostly around gapMean, sometimes very short or long
	r := simMix(&sim.rng)
	gap := 1 + (r>>8)%uint64(2*sim.gapMean)
	switch r & 7 {
	case 0:
		gap = 1 + (r>>8)%3
	case 1:
		gap *= 6
	}
	sim.nextPre = sim.steps + gap
}

// simDecide draws one decision in [0,n); 0 is the default choice.
func simDecide(n uint32, weightDefault uint32) uint32 {
	var c uint32
	if sim.replay {
		if sim.inPickN < len(sim.inPick) {
			c = sim.inPick[sim.inPickN] % n
			sim.inPickN++
		}
	} else {
		r := simMix(&sim.rng)
		if uint32(r&0xff) >= weightDefault {
			c = uint32((r >> 16) % uint64(n))
		}
	}
	simRecord(c)
	return c
}

func simRecord(c uint32) {
	if sim.outPickN < len(sim.outPick) {
		sim.outPick[sim.outPickN] = c
		sim.outPickN++
	} else {
		sim.truncOut = true
	}
}

//go:nosplit
func simRand() (uint64, bool) {
	if !simOn {
		return 0, false
	}
	gp := getg()
	if gp.bubble == nil {
		return 0, false
	}
	return simMix(&sim.rng2), true
}

//go:linkname simPointUser verif/simrt.rtPoint
func simPointUser() { simPoint() }

// simPoint is a potential preemption point.
func simPoint() {
	if !simOn {
		return
	}
	gp := getg()
	if gp.bubble == nil || gp == gp.m.g0 || gp.m.curg != gp || gp.m.locks != 0 || gp == gp.bubble.root {
		return
	}
	sim.steps++
	if sim.budget != 0 && sim.steps > sim.budget && !sim.over {
		sim.over = true
		print("SIM-STEP-BUDGET exceeded\n")
		exit(97)
	}
	if sim.nextPre == 0 || sim.steps < sim.nextPre {
		return
	}
	if sim.outPreN < len(sim.outPre) {
		sim.outPre[sim.outPreN] = sim.steps
		sim.outPreN++
	} else {
		sim.truncOut = true
	}
	simNextPre()
	if sim.nextPre != 0 && sim.nextPre <= sim.steps {
		sim.nextPre = sim.steps + 1
	}
	Gosched()
}

// simSelect permutes the poll order of a select: returns the index to swap with.
func simSelect(norder uint32) uint32 {
	if !simOn || norder == 0 || getg().bubble == nil {
		return cheaprandn(norder + 1)
	}
	c := simDecide(norder+1, 0)
	return norder - c
}

// simTimerRand orders simulated timers that fire at the same instant:
// by default in the order in which they were armed.
func simTimerRand() uint32 {
	if !simOn {
		return cheaprand()
	}
	sim.timerSeq++
	return simDecide(8, 128)<<28 | sim.timerSeq&0x0fffffff
}

func simPrio(off uint64) uint64 {
	for i := uint32(0); i < sim.demN; i++ {
		if sim.demote[i] == off {
			return uint64(sim.demN) - uint64(i)
		}
	}
	h := off*0x9e3779b97f4a7c15 + sim.baseSeed()
	h = (h ^ (h >> 29)) * 0xbf58476d1ce4e5b9
	return (h >> 8) | 1<<55
}

func (s *simState) baseSeed() uint64 { return s.chgAt[7]*0x2545f4914f6cdd1d + s.chgAt[6] }

// simRunqget replaces runqget while the simulator is on.
// Goroutines outside the bubble run first, in FIFO order, without consuming decisions.
func simRunqget(pp *p) *g {
	if next := pp.runnext; next != 0 {
		pp.runnext = 0
		runqput(pp, next.ptr(), false)
	}
	h := pp.runqhead
	n := pp.runqtail - h
	if n == 0 {
		return nil
	}
	size := uint32(len(pp.runq))
	idx := n
	ncand := uint32(0)
	for i := uint32(0); i < n; i++ {
		gp := pp.runq[(h+i)%size].ptr()
		if gp.bubble == nil {
			idx = i
			break
		}
		ncand++
	}
	if idx == n {
		idx = 0
		if ncand > sim.maxRunq {
			sim.maxRunq = ncand
		}
		if n > 1 {
			sim.picks++
			switch {
			case sim.replay:
				idx = simDecide(n, 0)
			case sim.strategy == 2:
				// PCT: highest priority runs; demote the last runner at change points
				for i := uint32(0); i < sim.chgN; i++ {
					if sim.chgAt[i] != ^uint64(0) && sim.steps >= sim.chgAt[i] {
						sim.chgAt[i] = ^uint64(0)
						if sim.demN < uint32(len(sim.demote)) {
							sim.demote[sim.demN] = sim.last
							sim.demN++
						}
					}
				}
				best := uint64(0)
				for i := uint32(0); i < n; i++ {
					pr := simPrio(pp.runq[(h+i)%size].ptr().simID)
					if pr > best {
						best = pr
						idx = i
					}
				}
				simRecord(idx)
			case sim.strategy == 3: // most recently readied first, mostly
				if simMix(&sim.rng)&15 == 0 {
					idx = simDecide(n, 0)
				} else {
					idx = n - 1
					simRecord(idx)
				}
			case sim.strategy == 1: // mostly FIFO
				idx = simDecide(n, 200)
			default:
				idx = simDecide(n, 0)
			}
		}
	}
	gp := pp.runq[(h+idx)%size].ptr()
	for i := idx; i > 0; i-- {
		pp.runq[(h+i)%size] = pp.runq[(h+i-1)%size]
	}
	pp.runqhead = h + 1
	if gp.bubble != nil {
		off := gp.simID
		if off != sim.last {
			sim.switches++
			sim.last = off
			sim.hash = (sim.hash ^ off ^ sim.steps<<16) * 0x100000001b3
		}
	}
	return gp
}

var _ unsafe.Pointer
