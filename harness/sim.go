package verifharness

// In-memory stream network. The standard library's net package, built with the
// overlay written by mkoverlay.py, hands every Dial/Listen of the program under
// test to the hooks installed here, so the unmodified go-ocpp code (and
// net/http, gorilla/websocket) runs on links whose latency, fragmentation and
// failures the workload controls and whose every byte the monitors can see. All
// blocking is on sync.Cond and timers, which are durable in a synctest bubble:
// inside a bubble time is virtual.

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var (
	simMu        sync.Mutex
	simListeners = map[string]*simListener{} // by port
	simConfigs   = map[string]*Net{}         // by port
	simPort      atomic.Int64
	simOn        atomic.Bool
)

func init() {
	simPort.Store(20000)
	net.VerifDialHook = func(ctx context.Context, network, address string) (net.Conn, error, bool) {
		if !simOn.Load() || !strings.HasPrefix(network, "tcp") {
			return nil, nil, false
		}
		if ctx.Err() != nil {
			return nil, &net.OpError{Op: "dial", Net: network, Err: ctx.Err()}, true
		}
		c, err := simDial(ctx, network, address)
		return c, err, true
	}
	net.VerifListenHook = func(ctx context.Context, network, address string) (net.Listener, error, bool) {
		if !simOn.Load() || !strings.HasPrefix(network, "tcp") {
			return nil, nil, false
		}
		l, err := simListen(network, address)
		return l, err, true
	}
}

// Net is one port of the simulated network and its fault plan.
type Net struct {
	Port string

	mu      sync.Mutex
	links   []*Link
	dials   []time.Time
	forget  bool                              // keeps no record of links, dials and traffic
	refuse  bool                              // dials fail with ECONNREFUSED
	hang    chan struct{}                     // dials block until it is closed
	OnLink  func(l *Link)                     // before the link is used
	Latency func(toServer bool) time.Duration // per write
	Linger  func(toServer bool) time.Duration // a write returns this long after its data left
	Chunk   func(toServer bool) int           // max bytes per read (0: unlimited)
	Closing func() time.Duration              // how long the client takes to close, as TLS may
}

var simEvents evCounter // every read/write/dial/accept/close on the simulated network

func NewNet() *Net {
	p := strconv.FormatInt(simPort.Add(1), 10)
	n := &Net{Port: p}
	simMu.Lock()
	simConfigs[p] = n
	simMu.Unlock()
	return n
}

func (n *Net) Addr() string { return ":" + n.Port }
func (n *Net) Host() string { return "sim.test:" + n.Port }
func (n *Net) WS() string   { return "ws://" + n.Host() }
func (n *Net) HTTP() string { return "http://" + n.Host() }

// Forget makes the port keep no record of what passes.
func (n *Net) Forget() { n.mu.Lock(); n.forget = true; n.mu.Unlock() }

func (n *Net) Refuse(on bool) { n.mu.Lock(); n.refuse = on; n.mu.Unlock() }

// HangDial makes dials block until it is switched off.
func (n *Net) HangDial(on bool) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if on == (n.hang != nil) {
		return
	}
	if on {
		n.hang = make(chan struct{})
	} else {
		close(n.hang)
		n.hang = nil
	}
}

// Dials returns the times at which a dial was attempted.
func (n *Net) Dials() []time.Time {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]time.Time(nil), n.dials...)
}

func (n *Net) Links() []*Link {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*Link(nil), n.links...)
}

// Listening says whether somebody is accepting on the port.
func (n *Net) Listening() bool {
	simMu.Lock()
	defer simMu.Unlock()
	l := simListeners[n.Port]
	return l != nil
}

// CloseListener makes Accept fail, which ends http.ListenAndServe.
func (n *Net) CloseListener() {
	simMu.Lock()
	l := simListeners[n.Port]
	simMu.Unlock()
	if l != nil {
		l.Close()
	}
}

// Shutdown removes the port and resets every link.
func (n *Net) Shutdown() {
	n.Refuse(true)
	n.HangDial(false)
	n.CloseListener()
	for _, l := range n.Links() {
		l.Reset()
	}
	simMu.Lock()
	delete(simConfigs, n.Port)
	simMu.Unlock()
}

type simListener struct {
	n      *Net
	port   string
	mu     sync.Mutex
	cond   *sync.Cond
	queue  []net.Conn
	closed bool
}

func portOf(address string) string {
	i := strings.LastIndex(address, ":")
	return address[i+1:]
}

func simListen(network, address string) (net.Listener, error) {
	p := portOf(address)
	if _, err := strconv.Atoi(p); err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: errors.New("bad address " + address)}
	}
	simMu.Lock()
	defer simMu.Unlock()
	n := simConfigs[p]
	if n == nil || simListeners[p] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: syscall.EADDRINUSE}
	}
	l := &simListener{n: n, port: p}
	l.cond = sync.NewCond(&l.mu)
	simListeners[p] = l
	simEvents.Add(1)
	return l, nil
}

func (l *simListener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for !l.closed && len(l.queue) == 0 {
		l.cond.Wait()
	}
	if l.closed {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	simEvents.Add(1)
	return c, nil
}

func (l *simListener) Close() error {
	simMu.Lock()
	if simListeners[l.port] == l {
		delete(simListeners, l.port)
	}
	simMu.Unlock()
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	l.closed = true
	simEvents.Add(1)
	for _, c := range l.queue {
		c.(*simConn).link.Reset()
	}
	l.queue = nil
	l.cond.Broadcast()
	return nil
}

func (l *simListener) Addr() net.Addr {
	p, _ := strconv.Atoi(l.port)
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: p}
}

func simDial(ctx context.Context, network, address string) (net.Conn, error) {
	simEvents.Add(1)
	p := portOf(address)
	simMu.Lock()
	n := simConfigs[p]
	l := simListeners[p]
	simMu.Unlock()
	refused := &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	if n == nil {
		return nil, refused
	}
	n.mu.Lock()
	if !n.forget {
		n.dials = append(n.dials, time.Now())
	}
	hang := n.hang
	n.mu.Unlock()
	if hang != nil { // packets vanish: nothing happens until the network is back or the caller gives up
		select {
		case <-hang:
		case <-ctx.Done():
			return nil, &net.OpError{Op: "dial", Net: network, Err: ctx.Err()}
		}
		simMu.Lock()
		l = simListeners[p]
		simMu.Unlock()
	}
	n.mu.Lock()
	refuse := n.refuse
	n.mu.Unlock()
	if refuse || l == nil {
		return nil, refused
	}
	link := newLink(n)
	if n.OnLink != nil {
		n.OnLink(link)
	}
	if link.RefuseDial {
		return nil, refused
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return nil, refused
	}
	n.mu.Lock()
	link.ID = len(n.links)
	if n.forget {
		link.C2S.tapOff, link.S2C.tapOff = true, true
	} else {
		n.links = append(n.links, link)
	}
	n.mu.Unlock()
	l.queue = append(l.queue, link.server)
	l.cond.Broadcast()
	return link.client, nil
}

// Link is one established connection.
type Link struct {
	ID             int
	n              *Net
	C2S, S2C       *half
	client, server *simConn
	RefuseDial     bool
}

func newLink(n *Net) *Link {
	l := &Link{n: n}
	l.C2S, l.S2C = newHalf(n, true), newHalf(n, false)
	cp := int(linkSeq.Add(1)%25000) + 40000
	sp, _ := strconv.Atoi(n.Port)
	ca := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: cp}
	sa := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: sp}
	l.client = &simConn{link: l, r: l.S2C, w: l.C2S, local: ca, remote: sa}
	l.server = &simConn{link: l, r: l.C2S, w: l.S2C, local: sa, remote: ca}
	return l
}

// Reset kills the connection in both directions at once (RST).
func (l *Link) Reset() {
	l.C2S.kill()
	l.S2C.kill()
}

// Closed says whether either end closed or reset the connection.
func (l *Link) Closed() bool {
	return l.C2S.ended() || l.S2C.ended()
}

// ClientClosed and ServerClosed say which side gave the connection up.
func (l *Link) ClientClosed() bool {
	l.C2S.mu.Lock()
	defer l.C2S.mu.Unlock()
	return l.C2S.eof || l.C2S.reset
}
func (l *Link) ServerClosed() bool {
	l.S2C.mu.Lock()
	defer l.S2C.mu.Unlock()
	return l.S2C.eof || l.S2C.reset
}

type seg struct {
	data []byte
	at   time.Time
}

type tapSeg struct {
	Seq  int64
	At   time.Time
	Data []byte
}

// half is one direction of a link.
type half struct {
	n        *Net
	toServer bool
	mu       sync.Mutex
	cond     *sync.Cond
	segs     []seg
	last     time.Time
	eof      bool // writer closed
	rclosed  bool // reader closed
	reset    bool
	hole     bool // writes vanish (half-open network)
	hold     bool // writes are queued but not delivered until released
	limit    int  // bytes until the link is reset (-1: none)
	written  int
	capacity int // max bytes queued before a writer blocks (0: unlimited)
	rdl, wdl time.Time
	Tap      []tapSeg
	tapOff   bool
}

var tapSeq, linkSeq atomic.Int64

func newHalf(n *Net, toServer bool) *half {
	h := &half{n: n, toServer: toServer, limit: -1}
	h.cond = sync.NewCond(&h.mu)
	return h
}

func (h *half) kill() {
	h.mu.Lock()
	h.reset = true
	h.segs = nil
	h.cond.Broadcast()
	h.mu.Unlock()
	simEvents.Add(1)
}

func (h *half) ended() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.eof || h.reset || h.rclosed
}

// Hole makes further writes vanish; Hold queues them until Hold(false).
func (h *half) Hole(on bool) { h.mu.Lock(); h.hole = on; h.mu.Unlock() }
func (h *half) Hold(on bool) {
	h.mu.Lock()
	h.hold = on
	h.cond.Broadcast()
	h.mu.Unlock()
}
func (h *half) SetCapacity(n int) { h.mu.Lock(); h.capacity = n; h.mu.Unlock() }

// CutAfter resets the link once n more bytes have been written in this direction.
func (h *half) CutAfter(n int) { h.mu.Lock(); h.limit = n; h.mu.Unlock() }

func (h *half) Written() int { h.mu.Lock(); defer h.mu.Unlock(); return h.written }

func (h *half) Bytes() []byte {
	h.mu.Lock()
	defer h.mu.Unlock()
	var b []byte
	for _, s := range h.Tap {
		b = append(b, s.Data...)
	}
	return b
}

func (h *half) TapSegs() []tapSeg {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]tapSeg(nil), h.Tap...)
}

func (h *half) arm(d time.Duration) {
	if d < 0 {
		d = 0
	}
	time.AfterFunc(d, func() {
		h.mu.Lock()
		h.cond.Broadcast()
		h.mu.Unlock()
	})
}

func (h *half) queued() int {
	n := 0
	for _, s := range h.segs {
		n += len(s.data)
	}
	return n
}

type simConn struct {
	link          *Link
	r, w          *half
	local, remote net.Addr
	closed        atomic.Bool
	closing       atomic.Bool
}

func opErr(op string, err error) error { return &net.OpError{Op: op, Net: "tcp", Err: err} }

func (c *simConn) Read(p []byte) (int, error) {
	h := c.r
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		now := time.Now()
		if c.closed.Load() {
			return 0, opErr("read", net.ErrClosed)
		}
		if h.reset {
			return 0, opErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if !h.rdl.IsZero() && !h.rdl.After(now) {
			return 0, opErr("read", os.ErrDeadlineExceeded)
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(h.segs) > 0 && !h.hold && !h.segs[0].at.After(now) {
			s := &h.segs[0]
			max := len(p)
			if h.n.Chunk != nil {
				if k := h.n.Chunk(h.toServer); k > 0 && k < max {
					max = k
				}
			}
			n := copy(p[:max], s.data)
			s.data = s.data[n:]
			if len(s.data) == 0 {
				h.segs = h.segs[1:]
			}
			simEvents.Add(1)
			if h.capacity > 0 {
				h.cond.Broadcast()
			}
			return n, nil
		}
		if len(h.segs) == 0 && h.eof && !h.hold {
			return 0, io.EOF
		}
		var wake time.Time
		if len(h.segs) > 0 && !h.hold {
			wake = h.segs[0].at
		}
		if !h.rdl.IsZero() && (wake.IsZero() || h.rdl.Before(wake)) {
			wake = h.rdl
		}
		if !wake.IsZero() {
			h.arm(wake.Sub(now))
		}
		h.cond.Wait()
	}
}

func (c *simConn) Write(p []byte) (int, error) {
	h := c.w
	h.mu.Lock()
	for {
		if c.closed.Load() {
			h.mu.Unlock()
			return 0, opErr("write", net.ErrClosed)
		}
		if h.reset {
			h.mu.Unlock()
			return 0, opErr("write", os.NewSyscallError("write", syscall.ECONNRESET))
		}
		if h.rclosed && !h.hole {
			h.mu.Unlock()
			return 0, opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if !h.wdl.IsZero() && !h.wdl.After(time.Now()) {
			h.mu.Unlock()
			return 0, opErr("write", os.ErrDeadlineExceeded)
		}
		if h.capacity > 0 && h.queued() > 0 && h.queued()+len(p) > h.capacity {
			if !h.wdl.IsZero() {
				h.arm(time.Until(h.wdl))
			}
			h.cond.Wait()
			continue
		}
		break
	}
	simEvents.Add(1)
	if !h.tapOff {
		h.Tap = append(h.Tap, tapSeg{tapSeq.Add(1), time.Now(), append([]byte(nil), p...)})
	}
	cut := false
	data := p
	if h.limit >= 0 {
		if len(data) >= h.limit {
			data = data[:h.limit]
			cut = true
		}
		h.limit -= len(data)
	}
	h.written += len(data)
	if !h.hole && len(data) > 0 {
		at := time.Now()
		if h.n.Latency != nil {
			at = at.Add(h.n.Latency(h.toServer))
		}
		if at.Before(h.last) {
			at = h.last
		}
		h.last = at
		h.segs = append(h.segs, seg{append([]byte(nil), data...), at})
		h.cond.Broadcast()
	}
	h.mu.Unlock()
	if cut {
		// deliver what was written, then fail both directions
		h.mu.Lock()
		h.eof = true
		h.cond.Broadcast()
		h.mu.Unlock()
		o := c.r
		o.kill()
		h.mu.Lock()
		h.limit = -1
		h.rclosed = true
		h.mu.Unlock()
	}
	if h.n.Linger != nil {
		if d := h.n.Linger(h.toServer); d > 0 {
			time.Sleep(d)
		}
	}
	return len(p), nil
}

func (c *simConn) Close() error {
	if f := c.link.n.Closing; f != nil && c == c.link.client && !c.closing.Swap(true) {
		time.Sleep(f())
	}
	if c.closed.Swap(true) {
		return opErr("close", net.ErrClosed)
	}
	simEvents.Add(1)
	c.w.mu.Lock()
	c.w.eof = true
	if c.w.hole {
		c.w.eof = false // the peer never learns
	}
	c.w.cond.Broadcast()
	c.w.mu.Unlock()
	c.r.mu.Lock()
	c.r.rclosed = true
	c.r.cond.Broadcast()
	c.r.mu.Unlock()
	return nil
}

func (c *simConn) LocalAddr() net.Addr  { return c.local }
func (c *simConn) RemoteAddr() net.Addr { return c.remote }

func (c *simConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *simConn) SetReadDeadline(t time.Time) error {
	c.r.mu.Lock()
	c.r.rdl = t
	c.r.cond.Broadcast()
	c.r.mu.Unlock()
	return nil
}

func (c *simConn) SetWriteDeadline(t time.Time) error {
	c.w.mu.Lock()
	c.w.wdl = t
	c.w.cond.Broadcast()
	c.w.mu.Unlock()
	return nil
}
