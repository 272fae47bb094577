package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"syscall"
	"time"
)

// The simulated network: TCP-like byte streams between named hosts with
// latency, segmentation, flow control, partitions, resets, truncation, stalls,
// refused and black-holed dials, crashing listeners and intermediaries that
// answer in the server's place. All waiting is on bubble time.

const (
	rtoTimeout  = 75 * time.Second  // an unacknowledged stream dies after this
	synTimeout  = 127 * time.Second // kernel connect timeout
	windowBytes = 64 << 10
)

type ConnFault struct {
	Conn int    `json:"conn"` // n-th connection dialled in the run (0-based)
	Kind string `json:"kind"`
	Dir  int    `json:"dir,omitempty"`  // 0 = client to server, 1 = server to client
	At   int    `json:"at,omitempty"`   // byte offset in that direction
	Dur  int64  `json:"dur,omitempty"`  // milliseconds
	Body string `json:"body,omitempty"` // intermediary's answer
	Fill int    `json:"fill,omitempty"` // ... followed by a body of that many bytes
	Slow int64  `json:"slow,omitempty"` // the intermediary reads on for that long after its answer
}

type Partition struct {
	From int64 `json:"from"` // ms
	To   int64 `json:"to"`
	Dirs int   `json:"dirs"` // 1 = c2s, 2 = s2c, 3 = both
}

type LinkCfg struct {
	Latency int64 `json:"latency"` // microseconds, one way
	Jitter  int64 `json:"jitter"`  // microseconds
	SegMax  int   `json:"segmax"`  // bytes per segment
	Bw      int64 `json:"bw"`      // bytes per millisecond, 0 = infinite
}

type simNet struct {
	mu        hmutex
	w         *world
	r         *rng
	link      LinkCfg
	listeners hmap[string, *simListener]
	conns     []*simPair
	dials     int
	faults    map[int][]ConnFault
	parts     []Partition
	start     time.Time
	healed    bool // no further faults are injected
	hits      hmap[string, int]
}

type simPair struct {
	n        int
	n0       *simNet
	addr     string
	c, s     *simConn
	mbox     *ConnFault
	faulted  bool
	accepted bool
}

func newSimNet(w *world, seed uint64, link LinkCfg, cf []ConnFault, parts []Partition) *simNet {
	n := &simNet{w: w, r: newRng(seed, 77), link: link,
		faults: map[int][]ConnFault{}, parts: parts, start: time.Now()}
	for _, f := range cf {
		n.faults[f.Conn] = append(n.faults[f.Conn], f)
	}
	return n
}

func (n *simNet) hit(kind string) {
	n.hits.set(kind, n.hits.get(kind)+1)
	n.w.event("fault", kind)
}

// blockedUntil reports whether a segment sent at t in direction dir is caught
// in a partition, and when that partition heals.
func (n *simNet) blockedUntil(t time.Time, dir int) (time.Time, bool) {
	for {
		again := false
		for _, p := range n.parts {
			if p.Dirs&(1<<dir) == 0 {
				continue
			}
			from, to := n.start.Add(time.Duration(p.From)*time.Millisecond), n.start.Add(time.Duration(p.To)*time.Millisecond)
			if !t.Before(from) && t.Before(to) {
				return to, true
			}
		}
		if !again {
			return t, false
		}
	}
}

// hmutex is a mutex of the harness. It orders nothing for the race detector: in
// a deployment the sides it connects are different machines.
type hmutex struct{ m sync.Mutex }

func (m *hmutex) Lock() {
	raceOff()
	m.m.Lock()
	raceOn()
}

func (m *hmutex) Unlock() {
	raceOff()
	m.m.Unlock()
	raceOn()
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

type simListener struct {
	n      *simNet
	addr   string
	q      chan *simConn
	done   chan struct{}
	once   sync.Once
	closed bool
}

func (n *simNet) Listen(addr string) (net.Listener, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if l := n.listeners.get(addr); l != nil {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: syscall.EADDRINUSE}
	}
	l := &simListener{n: n, addr: addr, q: make(chan *simConn, 128), done: make(chan struct{})}
	n.listeners.set(addr, l)
	return l, nil
}

func (l *simListener) Accept() (net.Conn, error) {
	select {
	case <-l.done:
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	default:
	}
	raceOff()
	var c *simConn
	select {
	case c = <-l.q:
	case <-l.done:
	}
	raceOn()
	if c != nil && isDone(l.done) {
		c.abort(syscall.ECONNRESET)
		c = nil
	}
	if c == nil {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
	return c, nil
}

func (l *simListener) Close() error {
	l.once.Do(func() {
		l.n.mu.Lock()
		if l.n.listeners.get(l.addr) == l {
			l.n.listeners.del(l.addr)
		}
		l.closed = true
		l.n.mu.Unlock()
		close(l.done)
		for {
			select {
			case c := <-l.q:
				c.abort(syscall.ECONNRESET)
				continue
			default:
			}
			break
		}
	})
	return nil
}

func (l *simListener) Addr() net.Addr { return simAddr(l.addr) }

func (n *simNet) latency() time.Duration {
	n.mu.Lock()
	defer n.mu.Unlock()
	d := time.Duration(n.link.Latency) * time.Microsecond
	if n.link.Jitter > 0 {
		d += time.Duration(n.r.u64() % uint64(n.link.Jitter*1000+1))
	}
	return d
}

func sleepCtx(ctx context.Context, d time.Duration) error {
	if d <= 0 {
		return ctx.Err()
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}
}

func dialErr(ctx context.Context, addr string, err error) error {
	if errors.Is(err, context.DeadlineExceeded) {
		err = os.ErrDeadlineExceeded
		if cerr := context.Cause(ctx); cerr != nil && errors.Is(cerr, context.Canceled) {
			err = cerr
		}
	}
	return &net.OpError{Op: "dial", Net: "tcp", Addr: simAddr(addr), Err: mapErr(err)}
}

// mapErr mirrors net.mapErr: what a real dialer reports for context errors.
func mapErr(err error) error {
	switch {
	case errors.Is(err, context.Canceled):
		return netCanceled{}
	case errors.Is(err, os.ErrDeadlineExceeded):
		return netTimeout{}
	}
	return err
}

type netCanceled struct{}

func (netCanceled) Error() string        { return "operation was canceled" }
func (netCanceled) Is(target error) bool { return target == context.Canceled }

type netTimeout struct{}

func (netTimeout) Error() string        { return "i/o timeout" }
func (netTimeout) Timeout() bool        { return true }
func (netTimeout) Temporary() bool      { return true }
func (netTimeout) Is(target error) bool { return target == context.DeadlineExceeded }

func (n *simNet) Dial(ctx context.Context, network, addr string) (net.Conn, error) {
	n.mu.Lock()
	k := n.dials
	n.dials++
	var fs []ConnFault
	if !n.healed {
		fs = n.faults[k]
	}
	n.mu.Unlock()
	n.w.event("dial", fmt.Sprintf("%d %s", k, addr))
	for _, f := range fs {
		switch f.Kind {
		case "refuse":
			n.hit("dial-refused")
			if err := sleepCtx(ctx, n.latency()*2); err != nil {
				return nil, dialErr(ctx, addr, err)
			}
			return nil, dialErr(ctx, addr, os.NewSyscallError("connect", syscall.ECONNREFUSED))
		case "synloss":
			n.hit("dial-blackholed")
			d := synTimeout
			if f.Dur > 0 {
				d = time.Duration(f.Dur) * time.Millisecond
			}
			if err := sleepCtx(ctx, d); err != nil {
				return nil, dialErr(ctx, addr, err)
			}
			if f.Dur == 0 {
				return nil, dialErr(ctx, addr, os.NewSyscallError("connect", syscall.ETIMEDOUT))
			}
		}
	}
	// three-way handshake through possible partitions
	begin := time.Now()
	for dir := 0; dir < 2; dir++ {
		for {
			until, blocked := n.blockedUntil(time.Now(), dir)
			if !blocked {
				break
			}
			n.hit("dial-partitioned")
			if until.Sub(begin) > synTimeout {
				if err := sleepCtx(ctx, begin.Add(synTimeout).Sub(time.Now())); err != nil {
					return nil, dialErr(ctx, addr, err)
				}
				return nil, dialErr(ctx, addr, os.NewSyscallError("connect", syscall.ETIMEDOUT))
			}
			if err := sleepCtx(ctx, until.Sub(time.Now())+time.Second); err != nil {
				return nil, dialErr(ctx, addr, err)
			}
		}
		if err := sleepCtx(ctx, n.latency()); err != nil {
			return nil, dialErr(ctx, addr, err)
		}
	}
	n.mu.Lock()
	l := n.listeners.get(addr)
	n.mu.Unlock()
	p := &simPair{n: k, n0: n, addr: addr}
	p.c = &simConn{n: n, p: p, client: true}
	p.s = &simConn{n: n, p: p}
	ab, ba := newHalf(n, p, 0), newHalf(n, p, 1)
	p.c.rd, p.c.wr = ba, ab
	p.s.rd, p.s.wr = ab, ba
	p.c.init()
	p.s.init()
	for i := range fs {
		f := &fs[i]
		switch f.Kind {
		case "reset", "fin", "stall", "swallow":
			h := ab
			if f.Dir == 1 {
				h = ba
			}
			h.faults = append(h.faults, *f)
		case "middlebox":
			p.mbox = f
		case "acceptreset":
			n.hit("reset-on-accept")
			n.addConn(p)
			p.c.abortLocal(syscall.ECONNRESET)
			p.s.abortLocal(syscall.ECONNRESET)
			return p.c, nil
		}
	}
	if p.mbox != nil {
		n.hit("middlebox")
		n.addConn(p)
		n.w.spawn(func() { runMiddlebox(p) })
		return p.c, nil
	}
	if l == nil {
		n.hits.set("refused-no-listener", n.hits.get("refused-no-listener")+1)
		return nil, dialErr(ctx, addr, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	// enqueue and close are atomic with respect to each other
	n.mu.Lock()
	if l.closed {
		n.mu.Unlock()
		return nil, dialErr(ctx, addr, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	raceOff()
	select {
	case l.q <- p.s:
		n.conns = append(n.conns, p)
	default:
		l = nil
	}
	raceOn()
	n.mu.Unlock()
	if l == nil {
		return nil, dialErr(ctx, addr, os.NewSyscallError("connect", syscall.ETIMEDOUT))
	}
	return p.c, nil
}

func (n *simNet) addConn(p *simPair) {
	n.mu.Lock()
	n.conns = append(n.conns, p)
	n.mu.Unlock()
}

// openClientConns counts connections the client side has not closed.
func (n *simNet) openClientConns() (open int) {
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, p := range n.conns {
		if !p.c.isClosed() {
			open++
		}
	}
	return
}

// crashHost resets every connection to addr.
func (n *simNet) crashHost(addr string) {
	n.mu.Lock()
	conns := append([]*simPair(nil), n.conns...)
	n.mu.Unlock()
	for _, p := range conns {
		if p.addr == addr {
			p.s.abort(syscall.ECONNRESET)
		}
	}
}

func (f *ConnFault) answer() []byte {
	b := []byte(f.Body)
	if f.Fill > 0 {
		b = append(b, fmt.Sprintf("Content-Length: %d\r\n\r\n", f.Fill)...)
		b = append(b, f.filler()...)
	}
	return b
}

func (f *ConnFault) filler() []byte {
	return bytes.Repeat([]byte(fmt.Sprintf("%d is not for you. ", f.Conn)), f.Fill/16+1)[:f.Fill]
}

// runMiddlebox swallows the request and answers by itself.
func runMiddlebox(p *simPair) {
	buf := make([]byte, 4096)
	p.s.SetReadDeadline(time.Now().Add(2 * time.Second))
	var got []byte
	for len(got) < 64 {
		k, err := p.s.Read(buf)
		got = append(got, buf[:k]...)
		if err != nil {
			break
		}
	}
	if p.mbox.Dur > 0 {
		time.Sleep(time.Duration(p.mbox.Dur) * time.Millisecond)
	}
	p.s.Write(p.mbox.answer())
	if p.mbox.Slow > 0 {
		// answered early; the rest of the request is taken in at leisure
		end := time.Now().Add(time.Duration(p.mbox.Slow) * time.Millisecond)
		p.s.SetReadDeadline(end)
		for time.Now().Before(end) {
			k, err := p.s.Read(buf[:1024])
			got = append(got, buf[:k]...)
			if err != nil {
				break
			}
			time.Sleep(time.Millisecond)
		}
	}
	// lingering close, the way proxies do it
	p.s.CloseWrite()
	p.s.SetReadDeadline(time.Now().Add(5 * time.Second))
	rest, _ := io.ReadAll(p.s)
	p.s.Close()
	p.n0.w.judgeForeign(append(got, rest...))
}

// ---------------------------------------------------------------------------

type segment struct {
	at   time.Time
	data []byte
	fin  bool
	rst  error
}

// half is one direction of a connection.
type half struct {
	n       *simNet
	p       *simPair
	dir     int
	mu      hmutex
	segs    []segment
	queued  int
	lastAt  time.Time
	free    time.Time // when the link has sent everything before
	sent    int
	dead    bool // writer must not add anything any more
	deadErr error
	finSent bool
	mute    bool  // drop silently
	rstErr  error // delivered immediately to the reader
	faults  []ConnFault
	rnotify chan struct{}
	wnotify chan struct{}
}

func newHalf(n *simNet, p *simPair, dir int) *half {
	return &half{n: n, p: p, dir: dir, rnotify: make(chan struct{}, 1), wnotify: make(chan struct{}, 1)}
}

func poke(c chan struct{}) {
	raceOff()
	defer raceOn()
	select {
	case c <- struct{}{}:
	default:
	}
}

// arrival computes when something sent now reaches the other side; died is set
// when a partition lasts longer than the retransmission limit.
func (h *half) arrival(size int) (at time.Time, died bool) {
	now := time.Now()
	until, blocked := h.n.blockedUntil(now, h.dir)
	if blocked {
		h.n.hit("partitioned-segment")
		if until.Sub(now) > rtoTimeout {
			return now.Add(rtoTimeout), true
		}
		// retransmission finds the way a moment after the heal
		at = until.Add(200 * time.Millisecond)
	} else {
		at = now
	}
	if h.n.link.Bw > 0 && size > 0 {
		if at.Before(h.free) {
			at = h.free
		}
		at = at.Add(time.Duration(int64(size) * int64(time.Millisecond) / h.n.link.Bw))
		h.free = at
	}
	at = at.Add(h.n.latency())
	if at.Before(h.lastAt) {
		at = h.lastAt
	}
	h.lastAt = at
	return at, false
}

// send queues data; it is called with h.mu held and returns what was accepted.
func (h *half) send(b []byte) (n int, err error) {
	for len(b) > 0 {
		if h.dead {
			return n, h.deadErr
		}
		k := len(b)
		if m := h.n.link.SegMax; m > 0 && k > m {
			h.n.mu.Lock()
			k = 1 + h.n.r.n(m)
			h.n.mu.Unlock()
		}
		// a fault inside this segment splits it
		var f *ConnFault
		if !h.n.healed {
			for i := range h.faults {
				if at := h.faults[i].At; at >= h.sent && at < h.sent+k && (f == nil || at < f.At) {
					f = &h.faults[i]
				}
			}
		}
		if f != nil {
			k = f.At - h.sent
		}
		if k > 0 {
			if !h.mute {
				at, died := h.arrival(k)
				if died {
					h.killAt(at)
					h.mute = true
				} else {
					h.segs = append(h.segs, segment{at: at, data: append([]byte(nil), b[:k]...)})
					h.queued += k
				}
			}
			h.sent += k
			n += k
			b = b[k:]
		}
		if f != nil {
			kind := *f
			f.At = -1
			h.p.faulted = true
			h.n.hit(fmt.Sprintf("%s-%s", kind.Kind, [2]string{"c2s", "s2c"}[h.dir]))
			switch kind.Kind {
			case "reset":
				// both ends see a reset after one latency
				at, _ := h.arrival(0)
				h.killAt(at)
				h.mute = true
			case "fin":
				// the peer sees a clean end of stream; the rest is thrown away
				at, _ := h.arrival(0)
				h.segs = append(h.segs, segment{at: at, fin: true})
				h.mute = true
				h.killAt(at.Add(h.n.latency() + time.Millisecond))
			case "stall":
				h.lastAt = time.Now().Add(time.Duration(kind.Dur) * time.Millisecond)
			case "swallow":
				// everything from here on is lost for good
				h.mute = true
				h.killAt(time.Now().Add(rtoTimeout))
			}
			poke(h.rnotify)
		}
	}
	poke(h.rnotify)
	return n, nil
}

// killAt resets the connection on both ends at the given time.
func (h *half) killAt(at time.Time) {
	p := h.p
	time.AfterFunc(time.Until(at), func() {
		p.c.abortLocal(syscall.ECONNRESET)
		p.s.abortLocal(syscall.ECONNRESET)
	})
}

type deadline struct {
	mu     hmutex
	timer  *time.Timer
	cancel chan struct{}
}

func (d *deadline) set(t time.Time) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.timer != nil && !d.timer.Stop() {
		<-d.cancel
	}
	d.timer = nil
	closed := isDone(d.cancel)
	if t.IsZero() {
		if closed {
			d.cancel = make(chan struct{})
		}
		return
	}
	if dur := time.Until(t); dur > 0 {
		if closed {
			d.cancel = make(chan struct{})
		}
		c := d.cancel
		d.timer = time.AfterFunc(dur, func() { close(c) })
		return
	}
	if !closed {
		close(d.cancel)
	}
}

func (d *deadline) wait() chan struct{} {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.cancel
}

func isDone(c chan struct{}) bool {
	raceOff()
	defer raceOn()
	select {
	case <-c:
		return true
	default:
		return false
	}
}

type simConn struct {
	n      *simNet
	p      *simPair
	client bool
	rd, wr *half
	rdl    deadline
	wdl    deadline
	mu     hmutex
	closed bool
	done   chan struct{}
	rerr   error
}

func (c *simConn) init() {
	c.done = make(chan struct{})
	c.rdl.cancel = make(chan struct{})
	c.wdl.cancel = make(chan struct{})
}

func (c *simConn) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func (c *simConn) opErr(op string, err error) error {
	if err == io.EOF {
		return err
	}
	return &net.OpError{Op: op, Net: "tcp", Source: c.LocalAddr(), Addr: c.RemoteAddr(), Err: err}
}

func (c *simConn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	h := c.rd
	for {
		c.mu.Lock()
		closed := c.closed
		c.mu.Unlock()
		if closed {
			return 0, c.opErr("read", net.ErrClosed)
		}
		if isDone(c.rdl.wait()) {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		h.mu.Lock()
		if h.rstErr != nil {
			err := h.rstErr
			h.mu.Unlock()
			return 0, c.opErr("read", os.NewSyscallError("read", err))
		}
		var wait time.Duration = -1
		if len(h.segs) > 0 {
			s := &h.segs[0]
			if d := time.Until(s.at); d > 0 {
				wait = d
			} else if s.fin {
				h.mu.Unlock()
				return 0, io.EOF
			} else {
				k := copy(b, s.data)
				s.data = s.data[k:]
				if len(s.data) == 0 {
					h.segs = h.segs[1:]
				}
				h.queued -= k
				h.mu.Unlock()
				poke(h.wnotify)
				return k, nil
			}
		}
		h.mu.Unlock()
		var tc <-chan time.Time
		var t *time.Timer
		if wait >= 0 {
			t = time.NewTimer(wait)
			tc = t.C
		}
		dl := c.rdl.wait()
		raceOff()
		select {
		case <-tc:
		case <-h.rnotify:
		case <-c.done:
		case <-dl:
		}
		raceOn()
		if t != nil {
			t.Stop()
		}
	}
}

func (c *simConn) Write(b []byte) (n int, err error) {
	h := c.wr
	for {
		c.mu.Lock()
		closed := c.closed
		c.mu.Unlock()
		if closed {
			return n, c.opErr("write", net.ErrClosed)
		}
		if isDone(c.wdl.wait()) {
			return n, c.opErr("write", os.ErrDeadlineExceeded)
		}
		h.mu.Lock()
		if h.dead {
			err := h.deadErr
			h.mu.Unlock()
			return n, c.opErr("write", os.NewSyscallError("write", err))
		}
		if h.finSent {
			h.mu.Unlock()
			return n, c.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		room := windowBytes - h.queued
		if room > 0 {
			k := len(b) - n
			if k > room {
				k = room
			}
			m, err := h.send(b[n : n+k])
			n += m
			h.mu.Unlock()
			if err != nil {
				return n, c.opErr("write", os.NewSyscallError("write", err))
			}
			if n == len(b) {
				return n, nil
			}
			continue
		}
		h.mu.Unlock()
		dl := c.wdl.wait()
		raceOff()
		select {
		case <-h.wnotify:
		case <-c.done:
		case <-dl:
		}
		raceOn()
	}
}

// CloseWrite sends a FIN after everything written so far.
func (c *simConn) CloseWrite() error {
	h := c.wr
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.finSent || h.dead {
		return nil
	}
	h.finSent = true
	if !h.mute {
		at, died := h.arrival(0)
		if died {
			h.killAt(at)
		} else {
			h.segs = append(h.segs, segment{at: at, fin: true})
		}
	}
	poke(h.rnotify)
	return nil
}

func (c *simConn) Close() error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	close(c.done)
	c.mu.Unlock()
	c.CloseWrite()
	// whatever the peer still sends meets a closed socket
	c.rd.mu.Lock()
	unread := c.rd.queued > 0
	c.rd.dead = true
	c.rd.deadErr = syscall.EPIPE
	c.rd.segs = nil
	c.rd.queued = 0
	c.rd.mu.Unlock()
	poke(c.rd.wnotify)
	if unread {
		// closing with unread data resets the peer
		at, died := func() (time.Time, bool) { c.wr.mu.Lock(); defer c.wr.mu.Unlock(); return c.wr.arrival(0) }()
		if !died {
			peer := c.peer()
			time.AfterFunc(time.Until(at), func() { peer.abortLocal(syscall.ECONNRESET) })
		}
	}
	return nil
}

func (c *simConn) peer() *simConn {
	if c.client {
		return c.p.s
	}
	return c.p.c
}

// abortLocal makes this end see a reset now.
func (c *simConn) abortLocal(err error) {
	c.rd.mu.Lock()
	if c.rd.rstErr == nil {
		c.rd.rstErr = err
	}
	c.rd.mu.Unlock()
	poke(c.rd.rnotify)
	c.wr.mu.Lock()
	c.wr.dead = true
	if c.wr.deadErr == nil {
		c.wr.deadErr = err
	}
	c.wr.mu.Unlock()
	poke(c.wr.wnotify)
}

// abort resets the connection: this end at once, the peer one latency later.
func (c *simConn) abort(err error) {
	c.abortLocal(err)
	peer := c.peer()
	c.wr.mu.Lock()
	at, died := c.wr.arrival(0)
	c.wr.mu.Unlock()
	_ = died
	time.AfterFunc(time.Until(at), func() { peer.abortLocal(syscall.ECONNRESET) })
}

func (c *simConn) LocalAddr() net.Addr {
	if c.client {
		return simAddr(fmt.Sprintf("10.0.0.1:%d", 10000+c.p.n))
	}
	return simAddr(c.p.addr)
}

func (c *simConn) RemoteAddr() net.Addr {
	if c.client {
		return simAddr(c.p.addr)
	}
	return simAddr(fmt.Sprintf("10.0.0.1:%d", 10000+c.p.n))
}

func (c *simConn) SetDeadline(t time.Time) error {
	c.rdl.set(t)
	c.wdl.set(t)
	return nil
}
func (c *simConn) SetReadDeadline(t time.Time) error  { c.rdl.set(t); return nil }
func (c *simConn) SetWriteDeadline(t time.Time) error { c.wdl.set(t); return nil }
