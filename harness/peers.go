package verifharness

// Scripted peers (plain gorilla/websocket, no go-ocpp code) and wrappers that
// start the real central system and charge points on the simulated network.

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"log"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gorilla/websocket"
	ocpp "github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// ---- panics that net/http recovers are still panics of the code under test

type panicTap struct{}

var httpPanics atomic.Int64
var lastHTTPPanic atomic.Value

func (panicTap) Write(p []byte) (int, error) {
	if bytes.Contains(p, []byte("http: panic serving")) && bytes.Contains(p, []byte(subject)) {
		httpPanics.Add(1)
		lastHTTPPanic.Store(string(p))
	}
	return len(p), nil
}

func init() { log.SetOutput(panicTap{}) }

func (c *Case) checkHTTPPanics(before int64) {
	if httpPanics.Load() != before {
		s, _ := lastHTTPPanic.Load().(string)
		c.Violate("panic-in-http-handler", "the library panicked inside the HTTP server (which swallowed it):\n%.3000s", s)
	}
}

// ---- debug logger: counts, and perturbs the schedule at every log call

type perturbLogger struct{ n atomic.Int64 }

var theLogger perturbLogger

func (l *perturbLogger) Printf(format string, v ...interface{}) {
	n := l.n.Add(1)
	k := int(n*2654435761>>7) & 7
	for i := 0; i < k; i++ {
		goschedHook()
	}
}

// ---- scripted WebSocket peer

type peer struct {
	c    *Case
	ws   *websocket.Conn
	name string
	wmu  sync.Mutex

	mu     sync.Mutex
	cond   *sync.Cond
	msgs   []*ocppMsg
	bad    []string
	ctrl   []string
	closed bool
	err    error
	OnMsg  func(p *peer, m *ocppMsg) // called by the read pump
	req    *http.Request             // the upgrade request, on the server side
}

func newPeer(c *Case, name string, s *websocket.Conn) *peer {
	p := &peer{c: c, ws: s, name: name}
	p.cond = sync.NewCond(&p.mu)
	return p
}

func (p *peer) pump() {
	for {
		op, b, err := p.ws.ReadMessage()
		if err != nil {
			p.mu.Lock()
			p.closed, p.err = true, err
			p.cond.Broadcast()
			p.mu.Unlock()
			p.ws.Close()
			return
		}
		m, perr := parseOCPP(b)
		p.mu.Lock()
		if perr != nil || op != websocket.TextMessage {
			p.bad = append(p.bad, fmt.Sprintf("op %d %v", op, perr))
		}
		if m != nil {
			m.At = time.Now()
			p.msgs = append(p.msgs, m)
		}
		f := p.OnMsg
		p.cond.Broadcast()
		p.mu.Unlock()
		if m != nil && f != nil {
			f(p, m)
		}
	}
}

func (p *peer) Raw(op int, b []byte) error {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	return p.ws.WriteMessage(op, b)
}

// Fragments sends one text message as k frames (some may be empty).
func (p *peer) Fragments(b []byte, k int) { p.FragmentsWith(b, k, nil) }

// FragmentsWith sends a ping between two fragments if ping returns data for it.
func (p *peer) FragmentsWith(b []byte, k int, ping func(i int) []byte) {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	raw := p.ws.UnderlyingConn()
	var mask byte = 0x80 // only clients mask
	if p.req != nil {
		mask = 0
	}
	key := [4]byte{0x5a, 1, 0xfe, 0x33}
	for i := 0; i < k; i++ {
		part := b[len(b)*i/k : len(b)*(i+1)/k]
		var h []byte
		op := byte(0)
		if i == 0 {
			op = 1
		}
		if i == k-1 {
			op |= 0x80
		}
		switch n := len(part); {
		case n < 126:
			h = []byte{op, mask | byte(n)}
		case n < 65536:
			h = []byte{op, mask | 126, byte(n >> 8), byte(n)}
		default:
			h = binary.BigEndian.AppendUint64([]byte{op, mask | 127}, uint64(n))
		}
		if mask != 0 {
			h = append(h, key[:]...)
			x := make([]byte, len(part))
			for j := range part {
				x[j] = part[j] ^ key[j&3]
			}
			part = x
		}
		if _, err := raw.Write(append(h, part...)); err != nil {
			return
		}
		if ping == nil || i == k-1 {
			continue
		}
		if data := ping(i); data != nil {
			h = []byte{0x89, mask | byte(len(data))}
			if mask != 0 {
				h = append(h, key[:]...)
				x := make([]byte, len(data))
				for j := range data {
					x[j] = data[j] ^ key[j&3]
				}
				data = x
			}
			if _, err := raw.Write(append(h, data...)); err != nil {
				return
			}
		}
	}
}

func (p *peer) Text(s string) error { return p.Raw(websocket.TextMessage, []byte(s)) }

func jsonText(v any) string {
	if s, ok := v.(json.RawMessage); ok {
		return string(s)
	}
	var buf bytes.Buffer
	e := json.NewEncoder(&buf)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return strings.TrimSpace(buf.String())
}

func (p *peer) Call(id, action string, payload any) error {
	return p.Text(fmt.Sprintf("[2,%s,%s,%s]", jsonText(id), jsonText(action), jsonText(payload)))
}
func (p *peer) Reply(id string, payload any) error {
	return p.Text(fmt.Sprintf("[3,%s,%s]", jsonText(id), jsonText(payload)))
}
func (p *peer) Error(id, code, desc string) error {
	return p.Text(fmt.Sprintf("[4,%s,%s,%s,{}]", jsonText(id), jsonText(code), jsonText(desc)))
}

func (p *peer) Close() { p.ws.Close() }

func (p *peer) Msgs() []*ocppMsg {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]*ocppMsg(nil), p.msgs...)
}

func (p *peer) IsClosed() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.closed }

// Wait waits (at most d) for a message that satisfies pred.
func (p *peer) Wait(d time.Duration, pred func(m *ocppMsg) bool) *ocppMsg {
	expired := false
	t := time.AfterFunc(d, func() {
		p.mu.Lock()
		expired = true
		p.cond.Broadcast()
		p.mu.Unlock()
	})
	defer t.Stop()
	p.mu.Lock()
	defer p.mu.Unlock()
	i := 0
	for {
		for ; i < len(p.msgs); i++ {
			if pred(p.msgs[i]) {
				return p.msgs[i]
			}
		}
		if p.closed || expired {
			return nil
		}
		p.cond.Wait()
	}
}

// Answer waits for the answer to a message ID.
func (p *peer) Answer(d time.Duration, id string) *ocppMsg {
	return p.Wait(d, func(m *ocppMsg) bool { return m.Type != 2 && m.ID == id })
}

// WaitClosed waits for the end of the connection.
func (p *peer) WaitClosed(d time.Duration) bool {
	p.Wait(d, func(*ocppMsg) bool { return false })
	return p.IsClosed()
}

// rawCP dials a central system the way a charge point does.
func (c *Case) rawCP(n *Net, id string) (*peer, error) {
	return c.rawCPProto(n, id, []string{"ocpp1.6"})
}

func (c *Case) rawCPProto(n *Net, id string, protos []string) (*peer, error) {
	d := websocket.Dialer{Subprotocols: protos}
	s, _, err := d.Dial(n.WS()+"/"+url.PathEscape(id), nil)
	if err != nil {
		return nil, err
	}
	p := newPeer(c, id, s)
	c.Defer(p.Close)
	go p.pump()
	return p, nil
}

// rawCS is a scripted central system.
type rawCS struct {
	c     *Case
	mu    sync.Mutex
	cond  *sync.Cond
	peers []*peer
	OnMsg func(p *peer, m *ocppMsg)
	// Upgrade, when set, handles the upgrade itself (nil peer: rejected).
	Upgrade func(w http.ResponseWriter, r *http.Request) *websocket.Conn
}

func (c *Case) rawCS(n *Net) *rawCS {
	s := &rawCS{c: c}
	s.cond = sync.NewCond(&s.mu)
	up := websocket.Upgrader{Subprotocols: []string{"ocpp1.6", "ocpp1.5"}}
	ln, err := net.Listen("tcp", n.Addr())
	if err != nil {
		panic(err)
	}
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var conn *websocket.Conn
		if s.Upgrade != nil {
			conn = s.Upgrade(w, r)
		} else {
			conn, _ = up.Upgrade(w, r, nil)
		}
		if conn == nil {
			return
		}
		p := newPeer(c, r.URL.Path, conn)
		p.req = r
		s.mu.Lock()
		p.OnMsg = s.OnMsg
		s.peers = append(s.peers, p)
		s.cond.Broadcast()
		s.mu.Unlock()
		p.pump()
	})}
	go srv.Serve(ln)
	c.Defer(func() { srv.Close() })
	return s
}

// Peer waits for the i-th accepted connection.
func (s *rawCS) Peer(i int, d time.Duration) *peer {
	expired := false
	t := time.AfterFunc(d, func() { s.mu.Lock(); expired = true; s.cond.Broadcast(); s.mu.Unlock() })
	defer t.Stop()
	s.mu.Lock()
	defer s.mu.Unlock()
	for len(s.peers) <= i && !expired {
		s.cond.Wait()
	}
	if len(s.peers) <= i {
		return nil
	}
	return s.peers[i]
}

func (s *rawCS) Count() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.peers) }

// ---- the real things

type csHandler = func(r cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error)
type cpHandler = func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error)

// startCS runs the real central system on a simulated port.
func (c *Case) startCS(n *Net, h csHandler) cs.CentralSystem {
	csys := cs.New()
	c.runCS(csys, n, h)
	return csys
}

func (c *Case) runCS(csys cs.CentralSystem, n *Net, h csHandler) {
	ensureMux()
	before := httpPanics.Load()
	c.Defer(func() { c.checkHTTPPanics(before) })
	go csys.Run(n.Addr(), h)
	for i := 0; i < 1000 && !n.Listening(); i++ {
		time.Sleep(time.Millisecond)
	}
	if !n.Listening() {
		c.Violate("cs-not-listening", "central system did not start listening on %s", n.Addr())
	}
}

// A central system that registers its handler on the process-wide mux could
// only ever be started once per process; the other properties' workloads start
// thousands. They therefore replace a used default mux (C20 does not).
func ensureMux() {
	r, _ := http.NewRequest("GET", "http://x/", nil)
	if _, pat := http.DefaultServeMux.Handler(r); pat != "" {
		http.DefaultServeMux = http.NewServeMux()
	}
}

type cpOpt struct {
	ID      string
	Version ocpp.Version
	Port    *string
	SOAP    bool
	URL     string
	Handler cpHandler
}

type realCP struct {
	cp.ChargePoint
	Cancel context.CancelFunc
	Ctx    context.Context
}

func (c *Case) startCP(n *Net, o cpOpt) (*realCP, error) {
	p, err, _ := c.newCP(n, o, -1)
	return p, err
}

// foreignContext is a context of a program's own; it ends as one whose deadline passed does.
type foreignContext struct {
	done chan struct{}
	once sync.Once
}

func (f *foreignContext) Deadline() (time.Time, bool) { return time.Time{}, false }
func (f *foreignContext) Done() <-chan struct{}       { return f.done }
func (f *foreignContext) Value(any) any               { return nil }
func (f *foreignContext) Err() error {
	select {
	case <-f.done:
		return context.DeadlineExceeded
	default:
		return nil
	}
}

type contextKey struct{}

// someContext is a context as programs make them, and what ends it.
func (c *Case) someContext() (context.Context, context.CancelFunc) {
	if c.Run.Prop == "C14" { // some of these have goroutines of their own
		return context.WithCancel(context.Background())
	}
	switch (c.Idx + int(c.ctxs.Add(1))) % 6 {
	case 1: // the parent of the given one ends
		parent, cancel := context.WithCancel(context.Background())
		ctx, cancel2 := context.WithCancel(context.WithValue(parent, contextKey{}, "x"))
		return ctx, func() { cancel(); cancel2() }
	case 2:
		ctx, cancel := context.WithCancelCause(context.Background())
		return ctx, func() { cancel(errors.New("the station is switched off")) }
	case 3:
		f := &foreignContext{done: make(chan struct{})}
		return f, func() { f.once.Do(func() { close(f.done) }) }
	case 4:
		f := &foreignContext{done: make(chan struct{})}
		ctx, cancel := context.WithTimeout(f, 10*365*24*time.Hour)
		return ctx, func() { f.once.Do(func() { close(f.done) }); cancel() }
	}
	return context.WithCancel(context.Background())
}

// newCP calls the constructor and says how long it took (-1: it did not return
// within 10 minutes); its context is cancelled after a while unless that is negative.
func (c *Case) newCP(n *Net, o cpOpt, cancelAfter time.Duration) (*realCP, error, time.Duration) {
	ctx, cancel := c.someContext()
	if cancelAfter == 0 {
		cancel()
	} else if cancelAfter > 0 {
		t := time.AfterFunc(cancelAfter, cancel)
		defer t.Stop()
	}
	if o.Version == "" {
		o.Version = ocpp.V16
	}
	tr := ocpp.JSON
	u := n.WS()
	if o.SOAP {
		tr, u = ocpp.SOAP, n.HTTP()+"/"
		o.Version = ocpp.V15
	}
	if o.URL != "" {
		u = o.URL
	}
	if o.Handler == nil {
		o.Handler = func(r csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			return nil, errors.New("no handler")
		}
	}
	var p cp.ChargePoint
	var err error
	start := time.Now()
	op := c.Go(func() {
		x, e := cp.New(ctx, o.ID, u, o.Version, tr, o.Port, o.Handler)
		err = e
		if x != nil {
			p = x
		}
	})
	c.Defer(cancel)
	if !op.Within(10 * time.Minute) {
		return nil, errHang, -1
	}
	took := op.At.Sub(start)
	if err != nil {
		return nil, err, took
	}
	return &realCP{p, cancel, ctx}, nil, took
}

var errHang = errors.New("harness: constructor did not return")

// mustCP is startCP on a network without faults, where failing is a violation.
func (c *Case) mustCP(n *Net, o cpOpt) *realCP {
	p, err := c.startCP(n, o)
	if err != nil {
		c.Violate("cp-new-failed", "charge point %q could not start on a working network: %v", o.ID, err)
		return nil
	}
	return p
}

// sent is the outcome of a Send made in its own goroutine.
type sent struct {
	*Op
	Resp  any
	Err   error
	Start time.Time
}

func (s *sent) Took() time.Duration { return s.At.Sub(s.Start) }

func (c *Case) sendCP(p interface {
	Send(cpreq.ChargePointRequest) (cpresp.ChargePointResponse, error)
}, r cpreq.ChargePointRequest) *sent {
	s := &sent{Start: time.Now()}
	s.Op = c.Go(func() {
		resp, err := p.Send(r)
		s.Err = err
		if resp != nil {
			s.Resp = resp
		}
	})
	return s
}

type csService interface {
	Send(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error)
}

func (c *Case) sendCS(p csService, r csreq.CentralSystemRequest) *sent {
	s := &sent{Start: time.Now()}
	s.Op = c.Go(func() {
		resp, err := p.Send(r)
		s.Err = err
		if resp != nil {
			s.Resp = resp
		}
	})
	return s
}

// settle lets everything that can happen now happen.
func settle(d time.Duration) { time.Sleep(d) }

func isSig(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// waitSig waits for a channel to be closed.
func waitSig(ch <-chan struct{}, d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ch:
		return true
	case <-t.C:
		return isSig(ch)
	}
}
