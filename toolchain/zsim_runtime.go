// Deterministic-simulation seam for the Go runtime (added through -overlay by
// /verif/toolchain/mkoverlay.py; never part of foomo/gotsrpc).
//
// When sim mode is on (GOMAXPROCS must be 1 and the GC off) every scheduling
// decision of bubbled goroutines, every runtime random draw visible to Go code
// and every optional yield is decided by one seeded generator, and the
// non-default decisions are recorded so a run can be replayed and minimised.

package runtime

import "unsafe"

const simMaxRec = 1 << 18

// simMaxYields bounds the statements of the code under test in one run; a
// normal run stays far below.
const simMaxYields = 30_000_000

type simState struct {
	on       bool
	explicit bool // replay a recorded list of decisions instead of drawing
	policy   uint32
	yieldP   uint32 // probability of yielding at a SimYield, in 1/65536
	sched    uint64 // scheduling stream
	rnd      uint64 // value stream (maps, math/rand)
	tie      uint64 // ties between timers, ready select cases and semaphore waiters
	nextID   uint64
	n        uint64 // decisions taken
	multi    uint64 // decisions with more than one candidate
	hash     uint64 // hash of (candidate index, goroutine) sequence
	steps    uint64
	ylds     uint64

	rec  [simMaxRec]uint64 // decision<<16 | choice
	nrec int
	lost uint64

	exp  []uint64
	expI int

	chg    [8]uint64 // PCT: decision numbers at which priorities are reshuffled
	salt   uint64
	victim uint64
	cur    *g
}

var simst simState

//go:nosplit
func simmix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simhash64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// simRecord accounts for decision n taking choice c out of k.
//
//go:nosplit
func simRecord(c, k uint32) {
	s := &simst
	if c != 0 {
		if s.nrec < simMaxRec {
			s.rec[s.nrec] = s.n<<16 | uint64(c)
			s.nrec++
		} else {
			s.lost++
		}
	}
	s.n++
	if k > 1 {
		s.multi++
	}
}

//go:nosplit
func simExplicit() uint32 {
	s := &simst
	for s.expI < len(s.exp) && s.exp[s.expI]>>16 < s.n {
		s.expI++
	}
	if s.expI < len(s.exp) && s.exp[s.expI]>>16 == s.n {
		c := uint32(s.exp[s.expI] & 0xffff)
		s.expI++
		return c
	}
	return 0
}

// simPick chooses the next goroutine from the local queue. It runs on g0 with
// exclusive access to the (only) P.
func simPick(pp *p) *g {
	// pull everything runnable into the local queue
	if next := pp.runnext; next != 0 && pp.runnext.cas(next, 0) {
		runqput(pp, next.ptr(), false)
	}
	if !sched.runq.empty() {
		lock(&sched.lock)
		for !sched.runq.empty() && pp.runqtail-pp.runqhead < uint32(len(pp.runq)) {
			gp := sched.runq.pop()
			sched.runq.size += 0
			t := pp.runqtail
			pp.runq[t%uint32(len(pp.runq))].set(gp)
			pp.runqtail = t + 1
		}
		unlock(&sched.lock)
	}
	h, t := pp.runqhead, pp.runqtail
	k := t - h
	if k == 0 {
		return nil
	}
	L := uint32(len(pp.runq))
	// goroutines outside a bubble (runtime workers) run first and take no decision
	for i := uint32(0); i < k; i++ {
		gp := pp.runq[(h+i)%L].ptr()
		if gp.bubble == nil {
			return simTake(pp, i)
		}
	}
	s := &simst
	s.steps++
	var c uint32
	if k > 1 {
		if s.explicit {
			c = simExplicit() % k
		} else {
			switch s.policy {
			case 0: // FIFO
			case 1: // uniform
				c = uint32(simmix(&s.sched) % uint64(k))
			case 2: // PCT-like: highest priority wins, reshuffled at change points
				for i := range s.chg {
					if s.chg[i] == s.n {
						s.salt = simmix(&s.sched)
					}
				}
				var best uint64
				for i := uint32(0); i < k; i++ {
					gp := pp.runq[(h+i)%L].ptr()
					pr := simhash64(s.salt ^ gp.simid*0x9e3779b97f4a7c15)
					if i == 0 || pr > best {
						best, c = pr, i
					}
				}
			case 3: // LIFO with occasional uniform
				if simmix(&s.sched)&7 == 0 {
					c = uint32(simmix(&s.sched) % uint64(k))
				} else {
					c = k - 1
				}
			case 4: // mostly FIFO
				if simmix(&s.sched)&3 == 0 {
					c = uint32(simmix(&s.sched) % uint64(k))
				}
			}
		}
		simRecord(c, k)
	}
	gp := simTake(pp, c)
	s.hash = (s.hash ^ gp.simid) * 0x100000001b3
	return gp
}

// simTake removes entry i of the local queue, keeping the order of the rest.
func simTake(pp *p, i uint32) *g {
	L := uint32(len(pp.runq))
	h := pp.runqhead
	gp := pp.runq[(h+i)%L].ptr()
	for ; i > 0; i-- {
		pp.runq[(h+i)%L].set(pp.runq[(h+i-1)%L].ptr())
	}
	pp.runqhead = h + 1
	return gp
}

// SimYield is the optional preemption point inserted between statements.
func SimYield() {
	s := &simst
	s.ylds++
	if s.ylds > simMaxYields && s.on {
		print("SIM-LIVELOCK: one run executed more than ", uint64(simMaxYields), " statements\n")
		exit(77)
	}
	if !s.on || getg().bubble == nil {
		return
	}
	var c uint32
	if s.explicit {
		c = simExplicit() & 1
	} else if s.policy != 0 && uint32(simmix(&s.sched)&0xffff) < s.yieldP {
		c = 1
	}
	simRecord(c, 2)
	if c == 1 {
		goyield()
	}
}

// SimConfig starts sim mode.
type SimConfig struct {
	SchedSeed uint64
	RandSeed  uint64
	Policy    uint32
	YieldP    uint32
	Explicit  bool
	Choices   []uint64
	Horizon   uint64
}

func SimStart(c *SimConfig) {
	s := &simst
	s.explicit = c.Explicit
	s.policy = c.Policy
	s.yieldP = c.YieldP
	s.sched = c.SchedSeed
	s.rnd = c.RandSeed
	s.tie = simhash64(c.RandSeed + 0x9e3779b97f4a7c15)
	s.ylds = 0
	s.n, s.multi, s.steps, s.nrec, s.lost, s.expI = 0, 0, 0, 0, 0, 0
	s.hash = 0xcbf29ce484222325
	s.exp = c.Choices
	h := c.Horizon
	if h == 0 {
		h = 4096
	}
	for i := range s.chg {
		s.chg[i] = simmix(&s.sched) % h
	}
	s.salt = simmix(&s.sched)
	s.nextID = 1
	getg().simid = 0
	getg().simrnd = c.RandSeed
	s.on = true
}

type SimStats struct {
	Decisions, Multi, Steps, Hash, Lost, Yields uint64
	Choices                                     []uint64
}

func SimStop() SimStats {
	s := &simst
	s.on = false
	return SimStats{s.n, s.multi, s.steps, s.hash, s.lost, s.ylds, append([]uint64(nil), s.rec[:s.nrec]...)}
}

// SimPeek returns counters while a run is in progress.
func SimPeek() (decisions, steps, hash uint64) {
	return simst.n, simst.steps, simst.hash
}

// SimBubble reports the number of goroutines in the caller's bubble.
func SimBubble() int {
	gp := getg()
	if gp.bubble == nil {
		return 0
	}
	return gp.bubble.total
}

// SimRand draws from the value stream.
//
//go:nosplit
func SimRand() uint64 {
	return simmix(&simst.rnd)
}

// simRandG draws from the calling goroutine's stream, so an extra draw in one
// goroutine (a pool that was empty) does not shift the values of another.
//
//go:nosplit
func simRandG() uint64 {
	if gp := getg().m.curg; gp != nil {
		return simmix(&gp.simrnd)
	}
	return simmix(&simst.rnd)
}

//go:nosplit
func simcheaprand() uint32 {
	if simst.on {
		return uint32(simmix(&simst.tie) >> 32)
	}
	return cheaprand()
}

//go:nosplit
func simcheaprandn(n uint32) uint32 {
	return uint32((uint64(simcheaprand()) * uint64(n)) >> 32)
}

//go:linkname simNow
func simNow() int64 {
	gp := getg()
	if gp.bubble != nil {
		return gp.bubble.now
	}
	return nanotime()
}

var _ = unsafe.Pointer(nil)

// SimGoid is the bubble-relative number of the calling goroutine.
func SimGoid() uint64 { return getg().simid }
