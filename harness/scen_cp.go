package verifharness

// C12 reconnection, C13 cancellation, C14 leftovers.

import (
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	ocpp "github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

func init() {
	register("C12", func(r *Run) {
		r.Cases("outages", r.N(500, 12000), c12Outages)
		r.Cases("flap", r.N(12, 200), c12Flap)
	})
	register("C13", func(r *Run) {
		r.Cases("ws", r.N(500, 12000), c13WS)
		r.Cases("soap", r.N(120, 3000), c13SOAP)
	})
	register("C14", func(r *Run) { r.Cases("growth", r.N(len(growthOps)*2, len(growthOps)*6), c14Growth) })
}

// ---------------------------------------------------------------- C12

// inject makes the peer send bytes; a write deadline of the library does not count.
func (l *Link) inject(b []byte) {
	l.server.SetWriteDeadline(time.Time{})
	l.server.Write(b)
}

// front is what listens on the central system's port: either a scripted central
// system or the real one; during an outage it misbehaves.
type front struct {
	c    *Case
	n    *Net
	real bool
	csys cs.CentralSystem
	h    csHandler

	mu    sync.Mutex
	mode  string // "" works
	ln    net.Listener
	srv   *http.Server
	peers []*peer
	held  []net.Conn
	up    int // connections that were good

	status   []int // answers of the mode "status"
	statuses int
	code     int // of close frames
}

// closeCodes are what close frames say.
var closeCodes = []int{1000, 1001, 1002, 1003, 1005, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 3000, 3999, 4000, 4001, 4403, 4999}

// httpStatuses are answers to an upgrade request other than 101.
var httpStatuses = []int{200, 201, 204, 300, 301, 302, 303, 304, 307, 308, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 418, 421, 426, 429, 431, 451, 500, 501, 502, 503, 504, 505, 511, 599}

func (f *front) setMode(m string) { f.mu.Lock(); f.mode = m; f.mu.Unlock() }
func (f *front) Mode() string     { f.mu.Lock(); defer f.mu.Unlock(); return f.mode }

// listen starts whatever listens: during an outage always the scripted one.
func (f *front) listen() {
	if f.real && f.Mode() == "" {
		ensureMux()
		go f.csys.Run(f.n.Addr(), f.h)
		if !waitListening(f.n) {
			f.c.Violate("cs-not-listening", "the central system did not start again")
		}
		return
	}
	ln, err := net.Listen("tcp", f.n.Addr())
	if err != nil {
		panic(err)
	}
	up := websocket.Upgrader{Subprotocols: []string{"ocpp1.6"}}
	f.srv = &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		switch m := f.Mode(); m {
		case "status": // another answer each time
			f.mu.Lock()
			f.statuses++
			st := f.status[f.statuses%len(f.status)]
			f.mu.Unlock()
			for _, h := range [][2]string{{"Retry-After", "86400"}, {"Location", f.n.HTTP() + "/elsewhere"}, {"WWW-Authenticate", `Basic realm="x"`}, {"Connection", "close"}, {"Sec-WebSocket-Version", "8"}} {
				if (st+f.statuses+len(h[0]))%2 == 0 || h[0] == "Retry-After" {
					w.Header().Set(h[0], h[1])
				}
			}
			w.WriteHeader(st)
			if st != 204 && st != 304 {
				w.Write([]byte("no charge points here"))
			}
			return
		case "500", "hang-dial":
			w.WriteHeader(500)
			return
		case "404":
			w.WriteHeader(404)
			return
		case "hang-handshake":
			conn, _, err := w.(http.Hijacker).Hijack()
			if err == nil {
				f.mu.Lock()
				f.held = append(f.held, conn)
				f.mu.Unlock()
			}
			return
		case "accept-close":
			if conn, _, err := w.(http.Hijacker).Hijack(); err == nil {
				conn.Close()
			}
			return
		case "cut-handshake":
			conn, _, err := w.(http.Hijacker).Hijack()
			if err == nil {
				conn.Write([]byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: webso"))
				conn.Close()
			}
			return
		case "upgrade-close", "upgrade-reset", "upgrade-closeframe":
			conn, err := up.Upgrade(w, r, nil)
			if err != nil {
				return
			}
			if m == "upgrade-closeframe" {
				f.mu.Lock()
				code := f.code
				f.mu.Unlock()
				conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(code, "try again later"))
			}
			if m == "upgrade-reset" {
				conn.UnderlyingConn().(*simConn).link.Reset()
			}
			conn.Close()
			return
		}
		conn, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		p := newPeer(f.c, r.URL.Path, conn)
		p.OnMsg = func(p *peer, m *ocppMsg) {
			if q, bad := decodeCall(m, true); m.Type == 2 && bad == "" {
				if a, err := answerCP(q); err == nil {
					p.Reply(m.ID, toJSON(a, schemaOf(m.Action+"Response")))
				}
			}
		}
		f.mu.Lock()
		f.peers = append(f.peers, p)
		f.mu.Unlock()
		p.pump()
	})}
	f.ln = ln
	srv := f.srv
	f.c.Defer(func() { srv.Close() })
	go srv.Serve(ln)
}

func (f *front) lastPeer() *peer {
	f.mu.Lock()
	defer f.mu.Unlock()
	for i := len(f.peers) - 1; i >= 0; i-- {
		if !f.peers[i].IsClosed() {
			return f.peers[i]
		}
	}
	return nil
}

// down stops whatever listens.
func (f *front) down() {
	f.n.CloseListener()
	if f.srv != nil {
		f.srv.Close()
		f.srv = nil
	}
	f.mu.Lock()
	for _, x := range f.held {
		x.Close()
	}
	f.held = nil
	if f.real { // whom only the scripted stand-in served
		for _, p := range f.peers {
			defer p.Close()
		}
		f.peers = nil
	}
	f.mu.Unlock()
}

func c12Outages(c *Case) {
	n := c.NewNet()
	nd := c.randNet(n)
	f := &front{c: c, n: n, real: c.R.IntN(2) == 0}
	var mu sync.Mutex
	handledCS := 0
	f.h = func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		mu.Lock()
		handledCS++
		mu.Unlock()
		return answerCP(q)
	}
	if f.real {
		f.csys = cs.New()
	}
	f.listen()
	handled := map[string]int{}
	gates := map[string]chan struct{}{} // handlers that take long
	c.Defer(func() {
		mu.Lock()
		defer mu.Unlock()
		for _, g := range gates {
			close(g)
		}
		gates = nil
	})
	p := c.mustCP(n, cpOpt{ID: "cp", Handler: func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		if x, ok := q.(*csreq.ChangeConfiguration); ok {
			mu.Lock()
			handled[x.Key]++
			gate := gates[x.Key]
			mu.Unlock()
			if gate != nil {
				<-gate
			}
		}
		return answerCS(q)
	}})
	if p == nil {
		return
	}
	tag := 0
	// release lets the handler that takes long finish
	release := func(key string) {
		mu.Lock()
		if gate := gates[key]; gate != nil {
			close(gate)
			delete(gates, key)
		}
		mu.Unlock()
	}
	held := ""
	probe := func(when string) bool {
		tag++
		t := fmt.Sprintf("t%d", tag)
		s := c.sendCP(p, &cpreq.Authorize{IdTag: t})
		s.Within(2 * time.Minute)
		if !s.Done() || s.Err != nil {
			c.Violate("send-broken", "%s, Send of the connected charge point: %v", when, s.Err)
			return false
		}
		settle(200 * ms)
		if f.real {
			if _, err := f.csys.GetServiceOf("cp", ocpp.V16, ""); err != nil {
				c.Violate("not-registered", "%s, the charge point is not registered: %v", when, err)
				return false
			}
		}
		if held != "" { // requests are handled one at a time
			release(held)
			held = ""
			settle(200 * ms)
		}
		if f.real {
			svc, err := f.csys.GetServiceOf("cp", ocpp.V16, "")
			if err != nil {
				c.Violate("not-registered", "%s, the charge point is not registered: %v", when, err)
				return false
			}
			d := c.sendCS(svc, &csreq.ChangeConfiguration{Key: t, Value: "v"})
			if !d.Within(2*time.Minute) || d.Err != nil {
				c.Violate("not-serving", "%s, a request to the charge point: %v", when, d.Err)
				return false
			}
		} else {
			pe := f.lastPeer()
			if pe == nil {
				c.Violate("not-connected", "%s, the charge point has no open connection", when)
				return false
			}
			pe.Call(t, "ChangeConfiguration", map[string]any{"key": t, "value": "v"})
			if m := pe.Answer(time.Minute, t); m == nil || m.Type != 3 {
				c.Violate("not-serving", "%s, a request to the charge point was answered with %v", when, m)
				return false
			}
		}
		mu.Lock()
		k := handled[t]
		mu.Unlock()
		if k != 1 {
			c.Violate("not-serving", "%s, a request was handled %d times", when, k)
		}
		if l := p.link(); l == nil || l.Closed() {
			c.Violate("connection", "%s, Connection() is not the open connection", when)
		}
		return true
	}
	state := func(up bool, when string) {
		if isSig(p.WaitConnect()) != up {
			c.Violate("waitconnect", "%s, WaitConnect is signalled: %v", when, !up)
		}
		if isSig(p.WaitDisconnect()) == up {
			c.Violate("waitdisconnect", "%s, WaitDisconnect is signalled: %v", when, up)
		}
	}
	settle(time.Second)
	state(true, "after the constructor returned")
	if !probe("after the constructor returned") {
		return
	}
	for i := 0; i < 1+c.R.IntN(3); i++ {
		f.status = append(f.status, httpStatuses[c.R.IntN(len(httpStatuses))])
	}
	f.code = closeCodes[c.R.IntN(len(closeCodes))]
	losses := []string{"reset", "reset", "peer-close", "closeframe", "closeframe", "cut-frame", "bad-frame", "cut-out", "local-close"}
	outages := []string{"", "", "refused", "no-listener", "500", "404", "status", "status", "accept-close", "accept-reset", "upgrade-close", "upgrade-reset", "upgrade-closeframe", "hang-handshake", "cut-handshake", "hang-dial", "mixed"}
	desc := fmt.Sprint(f.real, nd)
	for i := 0; i < 1+c.R.IntN(4) && !c.Bad(); i++ {
		idle := []time.Duration{0, 0, time.Second, time.Second, time.Minute, time.Minute, 3 * time.Hour, 40 * time.Hour, 15 * 24 * time.Hour}[c.R.IntN(9)]
		time.Sleep(idle)
		if idle > time.Hour {
			state(true, fmt.Sprintf("after %v without a message", idle))
			if k := len(n.Links()); c.R.IntN(2) == 0 && (!probe(fmt.Sprintf("after %v without a message", idle)) || len(n.Links()) != k) && !c.Bad() {
				c.Violate("idle", "after %v without a message there was a new connection", idle)
			}
		}
		loss := losses[c.R.IntN(len(losses))]
		out := outages[c.R.IntN(len(outages))]
		desc += fmt.Sprintf(" %s/%s", loss, out)
		when := fmt.Sprintf("outage %d (%s, then %q, after %v idle; %s)", i, loss, out, idle, desc)
		c.Logf("%s", when)
		if c.R.IntN(4) == 0 { // a request is being handled when the connection is lost
			held = fmt.Sprintf("held%d", i)
			mu.Lock()
			gates[held] = make(chan struct{})
			mu.Unlock()
			desc += " " + held
			queued := []int{0, 0, 1, 3, 20, 200}[c.R.IntN(6)] // behind it
			desc += fmt.Sprint("+", queued)
			for j := 0; j <= queued; j++ {
				key := held
				if j > 0 {
					key = fmt.Sprintf("%s.%d", held, j)
				}
				if f.real {
					if svc, err := f.csys.GetServiceOf("cp", ocpp.V16, ""); err == nil {
						c.sendCS(svc, &csreq.ChangeConfiguration{Key: key, Value: "v"})
					}
				} else if pe := f.lastPeer(); pe != nil {
					pe.Call(key, "ChangeConfiguration", map[string]any{"key": key, "value": "v"})
				}
				if j == 0 {
					settle(20 * ms)
				}
			}
			settle(time.Duration(c.R.IntN(10)) * time.Second)
		}
		wd, wc := p.WaitDisconnect(), p.WaitConnect()
		if isSig(wd) || !isSig(wc) {
			c.Violate("wait-up", "%s: while connected WaitDisconnect is signalled: %v, WaitConnect: %v", when, isSig(wd), isSig(wc))
		}
		var pending []*sent
		var l *Link
		if l = p.link(); l == nil {
			c.Violate("connection", "%s: Connection() has no connection", when)
			return
		}
		// the world changes first, so that the very first redial meets it
		period := time.Duration(0)
		if out != "" {
			period = time.Duration(c.R.IntN([]int{3, 30, 300, 1200}[c.R.IntN(4)])*1000+c.R.IntN(1000)) * ms
			if c.Idx%200 == 7 && i == 0 { // a whole night
				period = time.Duration(2+c.R.IntN(10)) * time.Hour
				desc += " night"
			}
		}
		setOut := func(out string) {
			f.down()
			n.HangDial(false)
			n.Refuse(false)
			n.OnLink = nil
			f.setMode(out)
			switch out {
			case "no-listener":
			case "refused":
				n.Refuse(true)
			case "accept-reset":
				n.OnLink = func(l *Link) { l.Reset() }
				f.listen()
			case "hang-dial":
				n.HangDial(true)
				f.listen()
			case "mixed":
				f.setMode("no-listener")
			default:
				f.listen()
			}
		}
		if c.R.IntN(3) == 0 {
			l.S2C.Hole(true) // the answers get lost on the way
			for j := 0; j < 1+c.R.IntN(3); j++ {
				pending = append(pending, c.sendCP(p, &cpreq.Authorize{IdTag: "lost"}))
			}
			settle(time.Duration(c.R.IntN(2000)) * ms)
			l.S2C.Hole(false)
		}
		if out != "" {
			// closing a listener does not disturb established connections
			if f.real {
				f.n.CloseListener()
			} else {
				srv := f.srv
				f.srv = nil
				f.n.CloseListener()
				_ = srv
			}
			setOut(out)
		}
		lossAt := time.Now()
		switch loss {
		case "reset":
			l.Reset()
		case "peer-close":
			l.server.Close()
		case "closeframe":
			code := closeCodes[c.R.IntN(len(closeCodes))]
			body := []byte{byte(code >> 8), byte(code)}
			if code == 1005 { // none
				body = nil
			} else if c.R.IntN(2) == 0 {
				body = append(body, "go away, it is closed"...)
			}
			desc += fmt.Sprint("=", code)
			l.inject(append([]byte{0x88, byte(len(body))}, body...))
		case "cut-frame":
			l.inject([]byte{0x81, 0x7e, 0x10, 0x00, '[', '2', ','})
			l.server.Close()
		case "bad-frame":
			l.inject([]byte{0xf3, 0x05, 1, 2, 3, 4, 5})
		case "cut-out": // dies while the charge point is writing
			l.C2S.CutAfter(c.R.IntN(60))
			pending = append(pending, c.sendCP(p, &cpreq.Authorize{IdTag: "cut"}))
		case "local-close":
			p.Connection().Close()
		}
		settle(500 * ms)
		if !isSig(wd) {
			c.Violate("waitdisconnect-missed", "%s: the connection is lost, WaitDisconnect obtained before is not signalled", when)
		}
		dialsAt := len(n.Dials())
		_ = dialsAt
		if out == "mixed" {
			for k := 0; k < 1+c.R.IntN(4); k++ {
				o := outages[2+c.R.IntN(len(outages)-3)]
				setOut(o)
				time.Sleep(time.Duration(1+c.R.IntN(60000)) * ms)
				if c.R.IntN(2) == 0 {
					n.HangDial(false)
				}
			}
		}
		var downAt []<-chan struct{}
		if out != "" && !strings.HasPrefix(out, "upgrade") && out != "mixed" {
			state(false, when+" during the outage")
			downAt = append(downAt, p.WaitConnect())
			s := c.sendCP(p, &cpreq.Authorize{IdTag: "down"})
			s.Within(3 * time.Minute)
			if !s.Done() {
				c.Violate("send-hangs", "%s: Send while disconnected does not return", when)
			} else if s.Err == nil {
				c.Violate("send-success", "%s: Send succeeded while disconnected", when)
			}
			time.Sleep(period)
			state(false, when+" at the end of the outage")
			for _, ch := range downAt {
				if isSig(ch) {
					c.Violate("waitconnect-early", "%s: a WaitConnect channel obtained while disconnected is signalled before the reconnection", when)
				}
			}
		} else {
			time.Sleep(period)
		}
		dials := n.Dials()
		restored := time.Now()
		if out != "" {
			setOut("")
		}
		wc = p.WaitConnect()
		if !waitSig(wc, 75*time.Second) {
			c.Violate("no-reconnect", "%s: not connected again 75 s after the central system is reachable (dials: %v)", when, ago(n.Dials()))
			return
		}
		// upgrade-* outages let it connect for a moment; let it settle on the good one
		settle(12 * time.Second)
		for _, ch := range downAt {
			if !isSig(ch) {
				c.Violate("waitconnect-lost", "%s: a WaitConnect channel obtained while disconnected was not signalled by the reconnection", when)
			}
		}
		state(true, when+" after the reconnection")
		if !isSig(wd) {
			c.Violate("waitdisconnect-revived", "%s: the WaitDisconnect channel of the lost connection is not signalled any more", when)
		}
		if !probe(when + " after the reconnection") {
			return
		}
		for _, s := range pending {
			if !s.Within(2 * time.Minute) {
				c.Violate("send-hangs", "%s: a Send that was pending when the connection was lost does not return", when)
			}
		}
		// the dials during the outage
		var during []time.Time
		for _, t := range dials {
			if !t.Before(lossAt) && t.Before(restored) {
				during = append(during, t)
			}
		}
		for j := 1; j < len(during); j++ {
			gap := during[j].Sub(during[j-1])
			if gap < time.Second {
				c.Violate("busy-loop", "%s: dials only %v apart while they fail: %v", when, gap, ago(during))
				break
			}
			if gap > 70*time.Second {
				c.Violate("slow-retry", "%s: dials %v apart: %v", when, gap, ago(during))
				break
			}
			quick := out != "" && out != "hang-handshake" && out != "hang-dial" && out != "mixed"
			if quick && gap > 15*time.Second {
				c.Violate("slow-retry", "%s: dials %v apart although they fail at once: %v", when, gap, ago(during))
				break
			}
		}
		if out != "" && period > 75*time.Second && len(during) == 0 {
			c.Violate("no-retry", "%s: not a single dial in %v", when, period)
		}
		c.Run.Count("dials_during_outages", int64(len(during)))
		c.Run.Count("outages", 1)
	}
	// exactly one connection is open
	open := 0
	for _, l := range n.Links() {
		if !l.ClientClosed() && !l.ServerClosed() {
			open++
		}
	}
	if open != 1 {
		c.Violate("connections", "%d connections are open; %s", open, desc)
	}
	c.Eval(desc)
	c.Sample("%s", desc)
}

// c12Flap: a connection that is lost again and again.
func c12Flap(c *Case) {
	n := c.NewNet()
	nd := c.randNet(n)
	f := &front{c: c, n: n}
	f.h = func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		return answerCP(q)
	}
	f.listen()
	var mu sync.Mutex
	handled := map[string]int{}
	p := c.mustCP(n, cpOpt{ID: "cp", Handler: func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		if x, ok := q.(*csreq.ChangeConfiguration); ok {
			mu.Lock()
			handled[x.Key]++
			mu.Unlock()
		}
		return answerCS(q)
	}})
	if p == nil {
		return
	}
	k := 30 + c.R.IntN(120)
	useful := 0
	for i := 0; i < k && !c.Bad(); i++ {
		settle(time.Duration(c.R.IntN(3000)) * ms)
		when := fmt.Sprintf("connection %d of %d (%s)", i, k, nd)
		l := p.link()
		if l == nil || l.Closed() || !isSig(p.WaitConnect()) || isSig(p.WaitDisconnect()) {
			c.Violate("flap-state", "%s: not connected although WaitConnect was signalled", when)
			return
		}
		if c.R.IntN(2) == 0 || i > k-5 {
			useful++
			s := c.sendCP(p, &cpreq.Authorize{IdTag: "t"})
			if !s.Within(2*time.Minute) || s.Err != nil {
				c.Violate("flap-send", "%s: Send: returned %v, error %v", when, s.Done(), s.Err)
				return
			}
			t := fmt.Sprint("k", i)
			pe := f.lastPeer()
			if pe == nil {
				c.Violate("flap-state", "%s: the central system has no open connection", when)
				return
			}
			pe.Call(t, "ChangeConfiguration", map[string]any{"key": t, "value": "v"})
			m := pe.Answer(time.Minute, t)
			mu.Lock()
			h := handled[t]
			mu.Unlock()
			if m == nil || m.Type != 3 || h != 1 {
				c.Violate("flap-serve", "%s: a request was handled %d times and answered with %v", when, h, m)
				return
			}
		}
		if i == k-1 {
			break
		}
		wd := p.WaitDisconnect()
		switch c.R.IntN(3) {
		case 0:
			l.Reset()
		case 1:
			l.server.Close()
		case 2:
			l.inject([]byte{0x88, 2, 0x03, 0xe9})
		}
		lost := len(n.Dials())
		if !waitSig(wd, time.Minute) {
			c.Violate("waitdisconnect-missed", "%s: lost, and WaitDisconnect is not signalled", when)
			return
		}
		if !waitSig(p.WaitConnect(), 75*time.Second) {
			c.Violate("no-reconnect", "%s: not connected again 75 s after it was lost; %d dials since", when, len(n.Dials())-lost)
			return
		}
	}
	c.Run.Count("flaps", int64(k))
	c.Eval(fmt.Sprint("flap ", k/10, useful/10, nd))
}

func ago(ts []time.Time) string {
	var out []string
	for i, t := range ts {
		if i > 0 {
			out = append(out, t.Sub(ts[i-1]).String())
		}
		if len(out) > 30 {
			break
		}
	}
	return "gaps " + strings.Join(out, " ")
}

// ---------------------------------------------------------------- C13

func c13WS(c *Case) {
	n := c.NewNet()
	nd := c.randNet(n)
	sv := c.rawCS(n)
	sv.OnMsg = func(p *peer, m *ocppMsg) {}
	var mu sync.Mutex
	handled, active := 0, 0
	gate := make(chan struct{})
	open := false
	release := func() {
		mu.Lock()
		defer mu.Unlock()
		if !open {
			open = true
			close(gate)
		}
	}
	c.Defer(release)
	block := c.R.IntN(2) == 0
	var cancelled time.Time
	late := 0
	base := len(subjectHere())
	p := c.mustCP(n, cpOpt{ID: "cp", Handler: func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		mu.Lock()
		handled++
		active++
		if !cancelled.IsZero() {
			late++
		}
		mu.Unlock()
		if block {
			<-gate
		} else {
			time.Sleep(time.Duration(c.Idx%5) * 20 * ms)
		}
		mu.Lock()
		active--
		mu.Unlock()
		return answerCS(q)
	}})
	if p == nil {
		return
	}
	var parts []string
	settle(time.Duration(c.R.IntN(1000)) * ms)
	pe := sv.Peer(0, time.Minute)
	if pe == nil {
		c.Violate("dial", "no connection")
		return
	}
	wd := p.WaitDisconnect()
	var sends []*sent
	if c.R.IntN(2) == 0 {
		k := 1 + c.R.IntN(6)
		for i := 0; i < k; i++ {
			sends = append(sends, c.sendCP(p, &cpreq.Authorize{IdTag: fmt.Sprint("s", i)}))
		}
		parts = append(parts, fmt.Sprint("sends", k))
	}
	calls := false
	if c.R.IntN(2) == 0 {
		k := 1 + c.R.IntN(40)
		for i := 0; i < k; i++ {
			pe.Call(fmt.Sprint("q", i), "ChangeConfiguration", map[string]any{"key": "k", "value": "v"})
		}
		calls = true
		parts = append(parts, fmt.Sprint("calls", min(k, 5), block))
	}
	settle(time.Duration(c.R.IntN(500000)) * time.Microsecond)
	state := c.R.IntN(9)
	if state == 8 && calls {
		state = 0 // only one goroutine may be stuck in writing (see run.go)
	}
	lost := false
	switch state {
	case 0, 1, 2: // connected
	case 3: // half-open network
		pe.link().S2C.Hole(true)
		pe.link().C2S.Hole(true)
		parts = append(parts, "hole")
	case 4:
		n.Refuse(true)
		pe.link().Reset()
		lost = true
		parts = append(parts, "retrying")
	case 5:
		n.HangDial(true)
		pe.link().Reset()
		lost = true
		parts = append(parts, "hang-dial")
	case 6:
		sv.Upgrade = func(w http.ResponseWriter, r *http.Request) *websocket.Conn {
			conn, _, _ := w.(http.Hijacker).Hijack()
			c.Defer(func() { conn.Close() })
			return nil
		}
		pe.link().Reset()
		lost = true
		parts = append(parts, "hang-handshake")
	case 7: // just lost, the network is fine
		pe.link().Reset()
		lost = true
		parts = append(parts, "lost")
	case 8: // the peer does not read: a Send is stuck in writing
		settle(5 * time.Second) // what was sent before has arrived: only one goroutine may be stuck in writing
		pe.link().C2S.Hold(true)
		pe.link().C2S.SetCapacity(10)
		sends = append(sends, c.sendCP(p, &cpreq.Authorize{IdTag: "fill"}))
		settle(ms)
		sends = append(sends, c.sendCP(p, &cpreq.Authorize{IdTag: "stuck"}))
		parts = append(parts, "not-reading")
	}
	if lost {
		// the requests queued before may still be handled: they were received
		time.Sleep(time.Duration(c.R.IntN(40000000)) * time.Microsecond)
	} else {
		time.Sleep(time.Duration(c.R.IntN(300000)) * time.Microsecond)
	}
	time.Sleep(time.Duration(1+c.R.IntN(999)) * time.Nanosecond)
	mu.Lock()
	cancelled = time.Now()
	mu.Unlock()
	when := fmt.Sprintf("cancelled with %v", parts)
	dials := len(n.Dials())
	if c.R.IntN(2) == 0 {
		d := time.Duration(1+c.R.IntN(2000)) * ms
		n.Closing = func() time.Duration { return d }
	}
	p.Cancel()
	if block && c.R.IntN(2) == 0 {
		release() // the handler in progress ends in the same moment
		parts = append(parts, "ends")
	}
	settle(ms)
	// more requests arrive
	if q := sv.Peer(sv.Count()-1, ms); q != nil && c.R.IntN(2) == 0 {
		for i := 0; i < 3; i++ {
			q.Call(fmt.Sprint("late", i), "ChangeConfiguration", map[string]any{"key": "k", "value": "v"})
		}
	}
	settle(5 * time.Second)
	for _, l := range n.Links() {
		if !l.ClientClosed() && !l.C2S.ended() {
			l.C2S.mu.Lock()
			hole := l.C2S.hole
			l.C2S.mu.Unlock()
			if !hole {
				c.Violate("connection-left", "%s: 5 s later a connection is still open", when)
			}
		}
		if !l.client.closed.Load() && !l.ServerClosed() {
			c.Violate("connection-left", "%s: 5 s later the charge point's end of a connection is not closed", when)
		}
	}
	for _, s := range sends {
		if !s.Done() {
			c.Violate("send-pending", "%s: a Send is still waiting 5 s later", when)
		} else if s.Err == nil {
			c.Violate("send-success", "%s: a Send without an answer succeeded", when)
		}
		c.Run.Count("sends_checked", 1)
	}
	if !isSig(wd) {
		c.Violate("waitdisconnect", "%s: WaitDisconnect is not signalled", when)
	}
	s := c.sendCP(p, &cpreq.Authorize{IdTag: "after"})
	if !s.Within(70*time.Second) || s.Err == nil {
		c.Violate("send-after", "%s: Send afterwards: returned %v, error %v", when, s.Done(), s.Err)
	}
	n.Refuse(false)
	n.HangDial(false)
	sv.Upgrade = nil
	settle(time.Duration(c.R.IntN(120)) * time.Second)
	release()
	settle(10 * time.Minute)
	if k := len(n.Dials()); k != dials {
		c.Violate("dials-on", "%s: %d more dials were made", when, k-dials)
	}
	mu.Lock()
	k, act := late, active
	mu.Unlock()
	if k > 0 {
		c.Violate("handles-on", "%s: the handler was called %d more times", when, k)
	}
	if act > 0 {
		c.Violate("handler", "harness: a handler did not end")
	}
	if g := subjectHere(); len(g) != base {
		c.Violate("goroutines-left", "%s: %d goroutines of it remain:\n%s", when, len(g)-base, g[len(g)-1])
	}
	if isSig(p.WaitConnect()) {
		c.Violate("waitconnect", "%s: WaitConnect is signalled", when)
	}
	c.Run.Count("cancellations", 1)
	sort.Strings(parts)
	c.Eval(fmt.Sprint("ws ", parts, handled > 0, nd))
	c.Sample("%s", when)
}

func c13SOAP(c *Case) {
	n, m := c.NewNet(), c.NewNet()
	nd := c.randNet(m)
	c.httpStub(n, func(conn net.Conn, l *Link, b []byte) {}) // never answers
	var mu sync.Mutex
	handled, late := 0, 0
	var cancelled bool
	gate := make(chan struct{})
	open := false
	release := func() {
		mu.Lock()
		defer mu.Unlock()
		if !open {
			open = true
			close(gate)
		}
	}
	c.Defer(release)
	block := c.R.IntN(2) == 0
	base := len(subjectHere())
	addr := m.Addr()
	p := c.mustCP(n, cpOpt{ID: "cp", SOAP: true, Port: &addr, Handler: func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		mu.Lock()
		handled++
		if cancelled {
			late++
		}
		mu.Unlock()
		if block {
			<-gate
		}
		return answerCS(q)
	}})
	if p == nil {
		return
	}
	if c.R.IntN(10) > 0 && !waitListening(m) {
		c.Violate("cp-not-listening", "the SOAP charge point does not listen")
		return
	}
	desc := ""
	k := c.R.IntN(4)
	o := findOp("ChangeConfiguration", false)
	st := &xmlStyle{r: c.R, prefix: map[string]string{nsSOAP: "S", nsWSA: "wsa", nsCS: "cs", nsCP: "cp"}}
	body := st.doc(st.envelope(o.xmlTree(&csreq.ChangeConfiguration{Key: "k", Value: "v"}, false), o.Action, "cp", nsCP))
	var posts []*Op
	for i := 0; i < k; i++ {
		posts = append(posts, c.Go(func() { c.post(m, body) }))
	}
	desc += fmt.Sprint("posts", k, block)
	half := c.R.IntN(3)
	var conns []net.Conn
	for i := 0; i < half; i++ { // unfinished requests
		conn, err := net.Dial("tcp", m.Host())
		if err == nil {
			fmt.Fprintf(conn, "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(body), body[:c.R.IntN(len(body))])
			conns = append(conns, conn)
			c.Defer(func() { conn.Close() })
		}
	}
	desc += fmt.Sprint(" half", half)
	settle(time.Duration(c.R.IntN(2000000)) * time.Microsecond)
	// connections that are open but on which no request was begun yet,
	// fresh ones and ones kept alive after a request
	var idle []net.Conn
	for i, k := 0, c.R.IntN(4); i < k; i++ {
		conn, err := net.Dial("tcp", m.Host())
		if err != nil {
			continue
		}
		c.Defer(func() { conn.Close() })
		idle = append(idle, conn)
		if i == 0 && !block {
			fmt.Fprintf(conn, "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
			settle(2 * time.Second)
		}
	}
	desc += fmt.Sprint(" idle", len(idle))
	settle(time.Duration(c.R.IntN(1000)) * ms)
	mu.Lock()
	cancelled = true
	mu.Unlock()
	p.Cancel()
	for i, conn := range idle {
		settle(time.Duration(1+c.R.IntN(1500)*i) * ms)
		fmt.Fprintf(conn, "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
	}
	settle(5 * time.Second)
	if m.Listening() {
		c.Violate("listening-on", "a cancelled SOAP charge point (%s) still listens after 5 s", desc)
	}
	if conn, err := net.Dial("tcp", m.Host()); err == nil {
		conn.Close()
		c.Violate("accepts-on", "a cancelled SOAP charge point (%s) accepts a connection", desc)
	}
	// the rest of an unfinished request comes too late
	if c.R.IntN(2) == 0 {
		for _, conn := range conns {
			conn.Write([]byte(body))
		}
	}
	settle(time.Minute)
	release()
	if c.R.IntN(2) == 0 { // otherwise the clients keep their ends for ever
		for _, x := range append(conns, idle...) {
			x.Close()
		}
	}
	settle(5 * time.Minute)
	if late > 0 {
		c.Violate("handles-on", "a cancelled SOAP charge point (%s) handled %d more requests", desc, late)
	}
	if g := subjectHere(); len(g) != base {
		c.Violate("goroutines-left", "of a cancelled SOAP charge point (%s) %d goroutines remain:\n%s", desc, len(g)-base, g[len(g)-1])
	}
	for _, x := range posts {
		if !x.Done() {
			c.Violate("post-pending", "a request to a cancelled SOAP charge point (%s) is still open", desc)
		}
	}
	// the port is free again
	if ln, err := net.Listen("tcp", m.Addr()); err != nil {
		c.Violate("port-kept", "the port of a cancelled SOAP charge point is not free: %v", err)
	} else {
		ln.Close()
	}
	c.Run.Count("cancellations", 1)
	c.Eval("soap " + desc + nd + fmt.Sprint(handled))
}

// ---------------------------------------------------------------- C14

type growthRig struct {
	c    *Case
	n    *Net
	csys cs.CentralSystem
	sv   *rawCS
	p    *realCP
	pe   *growPeer
	svc  csService
	m    *Net
	gate chan struct{}
	i    int
	mu   sync.Mutex
	hold []*growPeer // connections of a scripted central system
	mode string
}

// growPeer is a scripted peer that stores nothing.
type growPeer struct {
	ws   *websocket.Conn
	mu   sync.Mutex
	in   int
	f    func(p *growPeer, b []byte)
	done chan struct{}
}

func (p *growPeer) pump() {
	defer close(p.done)
	for {
		_, b, err := p.ws.ReadMessage()
		if err != nil {
			p.ws.Close()
			return
		}
		p.mu.Lock()
		p.in++
		f := p.f
		p.mu.Unlock()
		if f != nil {
			f(p, b)
		}
	}
}

func (p *growPeer) count() int { p.mu.Lock(); defer p.mu.Unlock(); return p.in }

func (p *growPeer) text(s string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.ws.WriteMessage(websocket.TextMessage, []byte(s))
}

func (g *growthRig) dial(id string) *growPeer {
	d := websocket.Dialer{Subprotocols: []string{"ocpp1.6"}}
	s, _, err := d.Dial(g.n.WS()+"/"+id, nil)
	if err != nil {
		return nil
	}
	p := &growPeer{ws: s, done: make(chan struct{})}
	go p.pump()
	return p
}

// reply answers a call with a fixed payload of the operation the workload uses.
func replyTo(kind string) func(p *growPeer, b []byte) {
	return func(p *growPeer, b []byte) {
		m, err := parseOCPP(b)
		if err != nil || m.Type != 2 {
			return
		}
		switch kind {
		case "ok":
			p.text(fmt.Sprintf(`[3,%q,{"status":"Accepted"}]`, m.ID))
		case "error":
			p.text(fmt.Sprintf(`[4,%q,"InternalError","no",{}]`, m.ID))
		case "bad":
			p.text(fmt.Sprintf(`[3,%q,{"status":5}]`, m.ID))
		case "twice":
			p.text(fmt.Sprintf(`[3,%q,{"status":"Accepted"}]`, m.ID))
			p.text(fmt.Sprintf(`[3,%q,{"status":"Accepted"}]`, m.ID))
		case "late":
			time.AfterFunc(70*time.Second, func() { p.text(fmt.Sprintf(`[3,%q,{"status":"Accepted"}]`, m.ID)) })
		}
	}
}

type growthOp struct {
	name  string
	n     int // operations per window
	setup func(g *growthRig) bool
	do    func(g *growthRig, k int)
}

func (g *growthRig) cs(h csHandler) bool {
	if h == nil {
		h = func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
			return answerCP(q)
		}
	}
	g.csys = g.c.startCS(g.n, h)
	return true
}

func (g *growthRig) csWithPeer(kind string) func(g *growthRig) bool {
	return func(g *growthRig) bool {
		g.cs(nil)
		g.pe = g.dial("cp")
		if g.pe == nil {
			return false
		}
		g.pe.f = replyTo(kind)
		settle(time.Second)
		svc, err := g.csys.GetServiceOf("cp", ocpp.V16, "")
		if err != nil {
			return false
		}
		g.svc = svc
		return true
	}
}

// cpWithPeer is a real charge point and a scripted central system that stores nothing.
func (g *growthRig) cpWithPeer(kind string) func(g *growthRig) bool {
	return g.cpWithHandler(kind, func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		if x, ok := q.(*csreq.ChangeConfiguration); ok && x.Key == "ERR" {
			return nil, errors.New("no")
		}
		return answerCS(q)
	})
}

func (g *growthRig) cpWithHandler(kind string, h cpHandler) func(g *growthRig) bool {
	return func(g *growthRig) bool {
		up := websocket.Upgrader{Subprotocols: []string{"ocpp1.6"}}
		ln, err := net.Listen("tcp", g.n.Addr())
		if err != nil {
			return false
		}
		srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if g.mode == "500" {
				w.WriteHeader(500)
				return
			}
			conn, err := up.Upgrade(w, r, nil)
			if err != nil {
				return
			}
			p := &growPeer{ws: conn, done: make(chan struct{}), f: replyTo(kind)}
			g.mu.Lock()
			g.pe = p
			g.mu.Unlock()
			p.pump()
		})}
		go srv.Serve(ln)
		g.c.Defer(func() { srv.Close() })
		g.p = g.c.mustCP(g.n, cpOpt{ID: "cp", Handler: h})
		settle(time.Second)
		return g.p != nil && g.peer() != nil
	}
}

func (g *growthRig) peer() *growPeer { g.mu.Lock(); defer g.mu.Unlock(); return g.pe }

// sends makes k Sends, w at a time.
func (g *growthRig) sends(k, w int, f func()) {
	for k > 0 {
		var wg sync.WaitGroup
		for i := 0; i < w && k > 0; i++ {
			k--
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		}
		wg.Wait()
	}
}

func (g *growthRig) calls(pe *growPeer, k int, f func(i int) string) {
	for j := 0; j < k; j++ {
		g.i++
		pe.text(f(g.i))
		if j%32 == 31 {
			time.Sleep(10 * ms)
		}
	}
	time.Sleep(time.Second)
}

var growthOps []growthOp

func init() {
	var g0 *growthRig
	csSend := func(kind string, n, w int) growthOp {
		return growthOp{"cs-send-" + kind, n, g0.csWithPeer(kind), func(g *growthRig, k int) {
			g.sends(k, w, func() { g.svc.Send(&csreq.ChangeConfiguration{Key: "k", Value: "v"}) })
		}}
	}
	cpSend := func(kind string, n, w int) growthOp {
		return growthOp{"cp-send-" + kind, n, g0.cpWithPeer(kind), func(g *growthRig, k int) {
			g.sends(k, w, func() { g.p.Send(&cpreq.DataTransfer{VendorId: "v"}) })
		}}
	}
	csRecv := func(name string, f func(i int) string) growthOp {
		return growthOp{"cs-recv-" + name, 4000, g0.csWithPeer("ok"), func(g *growthRig, k int) { g.calls(g.pe, k, f) }}
	}
	cpRecv := func(name string, f func(i int) string) growthOp {
		return growthOp{"cp-recv-" + name, 4000, g0.cpWithPeer("ok"), func(g *growthRig, k int) { g.calls(g.peer(), k, f) }}
	}
	http1 := func(name string, f func(i int) string) growthOp {
		return growthOp{"http-" + name, 600, func(g *growthRig) bool { return g.cs(nil) }, func(g *growthRig, k int) {
			for j := 0; j < k; j++ {
				g.i++
				g.raw(f(g.i))
			}
		}}
	}
	conns := func(name string, id func(i int) string, end func(g *growthRig, p *growPeer)) growthOp {
		return growthOp{"conn-" + name, 500, func(g *growthRig) bool { return g.cs(nil) }, func(g *growthRig, k int) {
			for j := 0; j < k; j++ {
				g.i++
				p := g.dial(id(g.i))
				if p == nil {
					continue
				}
				time.Sleep(time.Duration(g.i%3) * ms)
				end(g, p)
				time.Sleep(10 * ms)
			}
		}}
	}
	same := func(i int) string { return "cp" }
	fresh := func(i int) string { return fmt.Sprint("cp", i) }
	hard := func(g *growthRig, p *growPeer) { p.ws.Close() }
	body := func(id string) string { return newEnvelopeFor(id, &cpreq.Authorize{IdTag: "t1"}) }
	growthOps = []growthOp{
		csSend("ok", 4000, 1), csSend("error", 4000, 20), csSend("bad", 4000, 5), csSend("twice", 4000, 5), csSend("never", 3000, 300), csSend("late", 3000, 300),
		cpSend("ok", 4000, 1), cpSend("error", 4000, 20), cpSend("bad", 4000, 5), cpSend("twice", 4000, 5), cpSend("never", 3000, 300), cpSend("late", 3000, 300),
		csRecv("ok", func(i int) string { return fmt.Sprintf(`[2,"c%d","Authorize",{"idTag":"t1"}]`, i) }),
		csRecv("error", func(i int) string { return fmt.Sprintf(`[2,"c%d","Authorize",{"idTag":"ERR"}]`, i) }),
		csRecv("unknown", func(i int) string { return fmt.Sprintf(`[2,"c%d","Nothing%d",{}]`, i, i) }),
		csRecv("malformed", func(i int) string { return fmt.Sprintf(`[2,"c%d","Authorize",{"idTag":%d}]`, i, i) }),
		csRecv("direction", func(i int) string { return fmt.Sprintf(`[2,"c%d","ClearCache",{}]`, i) }),
		csRecv("unsolicited", func(i int) string { return fmt.Sprintf(`[3,"c%d",{}]`, i) }),
		csRecv("unsolicited-error", func(i int) string { return fmt.Sprintf(`[4,"c%d","x","y",{}]`, i) }),
		csRecv("garbage", func(i int) string { return fmt.Sprintf(`{"a":%d`, i) }),
		cpRecv("ok", func(i int) string { return fmt.Sprintf(`[2,"c%d","ChangeConfiguration",{"key":"k","value":"v"}]`, i) }),
		cpRecv("error", func(i int) string {
			return fmt.Sprintf(`[2,"c%d","ChangeConfiguration",{"key":"ERR","value":"v"}]`, i)
		}),
		cpRecv("unknown", func(i int) string { return fmt.Sprintf(`[2,"c%d","Nothing%d",{}]`, i, i) }),
		cpRecv("unsolicited", func(i int) string { return fmt.Sprintf(`[3,"c%d",{}]`, i) }),
		conns("same", same, hard), conns("fresh", fresh, hard),
		conns("closeframe", fresh, func(g *growthRig, p *growPeer) {
			p.ws.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""))
			p.ws.Close()
		}),
		conns("reset", fresh, func(g *growthRig, p *growPeer) { p.ws.UnderlyingConn().(*simConn).link.Reset() }),
		conns("pending-send", fresh, func(g *growthRig, p *growPeer) {
			time.Sleep(5 * ms)
			if svc, err := g.csys.GetServiceOf(fmt.Sprint("cp", g.i), ocpp.V16, ""); err == nil {
				go svc.Send(&csreq.ClearCache{})
				time.Sleep(ms)
			}
			p.ws.Close()
		}),
		conns("queued", same, func(g *growthRig, p *growPeer) {
			for i := 0; i < 20; i++ {
				p.text(`[2,"q","Authorize",{"idTag":"t1"}]`)
			}
			p.ws.UnderlyingConn().(*simConn).link.Reset()
		}),
		conns("overlap", same, func(g *growthRig, p *growPeer) {
			q := g.dial("cp")
			time.Sleep(ms)
			p.ws.Close()
			time.Sleep(ms)
			if q != nil {
				q.ws.Close()
			}
		}),
		{"conn-waited", 500, func(g *growthRig) bool { return g.cs(nil) }, func(g *growthRig, k int) {
			for j := 0; j < k; j++ {
				g.i++
				id := fmt.Sprint("cp", g.i)
				wc := g.csys.WaitConnect(id)
				p := g.dial(id)
				if p == nil {
					continue
				}
				time.Sleep(5 * ms)
				wd := g.csys.WaitDisconnect(id)
				if !isSig(wc) || isSig(wd) {
					g.c.Violate("wait", "WaitConnect, WaitDisconnect of a connected charge point are signalled: %v, %v", isSig(wc), isSig(wd))
				}
				p.ws.Close()
				time.Sleep(10 * ms)
			}
		}},
		http1("status", func(i int) string { return "GET / HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n" }),
		http1("rejected", func(i int) string {
			return fmt.Sprintf("GET /x%d HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade, close\r\nSec-WebSocket-Version: 13\r\n\r\n", i)
		}),
		http1("soap", func(i int) string {
			b := body(fmt.Sprint("s", i))
			return fmt.Sprintf("POST / HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", len(b), b)
		}),
		http1("bad-soap", func(i int) string {
			return fmt.Sprintf("POST /x%d HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: 4\r\n\r\n<a/>", i)
		}),
		{"cp-reconnect", 400, g0.cpWithPeer("ok"), func(g *growthRig, k int) {
			for j := 0; j < k; j++ {
				pe := g.peer()
				g.i++
				switch g.i % 3 {
				case 0:
					pe.ws.Close()
				case 1:
					pe.ws.UnderlyingConn().(*simConn).link.Reset()
				case 2:
					go g.p.Send(&cpreq.Heartbeat{})
					time.Sleep(ms)
					pe.ws.Close()
				}
				time.Sleep(6 * time.Second)
			}
		}},
		{"cp-failing-dials", 600, g0.cpWithPeer("ok"), func(g *growthRig, k int) {
			modes := []string{"refuse", "500", "accept-reset"}
			for i, m := range modes {
				switch m {
				case "refuse":
					g.n.Refuse(true)
				case "500":
					g.mode = "500"
				case "accept-reset":
					g.n.OnLink = func(l *Link) { l.Reset() }
				}
				if i == 0 {
					g.peer().ws.Close()
				}
				time.Sleep(time.Duration(k/len(modes)) * 5 * time.Second)
				if i+1 < len(modes) && modes[i+1] == "500" || m == "500" {
					// keep failing while the mode changes
				}
				if m == "refuse" {
					g.mode = "500"
					g.n.Refuse(false)
				}
				if m == "500" {
					g.n.OnLink = func(l *Link) { l.Reset() }
					g.mode = ""
				}
			}
			g.n.OnLink = nil
			time.Sleep(80 * time.Second)
		}},
		{"cp-start-stop", 200, func(g *growthRig) bool { return g.cs(nil) }, func(g *growthRig, k int) {
			for j := 0; j < k; j++ {
				p, err := g.c.startCP(g.n, cpOpt{ID: "cp"})
				if err == nil {
					p.Send(&cpreq.Heartbeat{})
					p.Cancel()
				}
				time.Sleep(10 * ms)
				g.c.dropDefer()
			}
		}},
		{"cp-failed-start", 200, func(g *growthRig) bool { g.n.Refuse(true); return true }, func(g *growthRig, k int) {
			for j := 0; j < k; j++ {
				g.c.startCP(g.n, cpOpt{ID: "cp"})
				g.c.dropDefer()
			}
		}},
		{"soap-cp-send", 500, func(g *growthRig) bool {
			g.cs(nil)
			g.m = g.c.NewNet()
			a := g.m.Addr()
			g.p = g.c.mustCP(g.n, cpOpt{ID: "cp", SOAP: true, Port: &a, Handler: func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) { return answerCS(q) }})
			return g.p != nil && waitListening(g.m)
		}, func(g *growthRig, k int) {
			g.sends(k, 5, func() { g.p.Send(&cpreq.Authorize{IdTag: "t1"}) })
		}},
		{"soap-cs-send", 500, func(g *growthRig) bool {
			g.cs(nil)
			g.m = g.c.NewNet()
			g.m.Forget()
			a := g.m.Addr()
			g.p = g.c.mustCP(g.n, cpOpt{ID: "cp", SOAP: true, Port: &a, Handler: func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) { return answerCS(q) }})
			return g.p != nil && waitListening(g.m)
		}, func(g *growthRig, k int) {
			g.sends(k, 5, func() {
				svc, err := g.csys.GetServiceOf("cp", ocpp.V15, g.m.HTTP())
				if err == nil {
					svc.Send(&csreq.ClearCache{})
				}
			})
		}},
		{"soap-send-failing", 400, func(g *growthRig) bool {
			g.csys = cs.New()
			return true
		}, func(g *growthRig, k int) {
			svc, _ := g.csys.GetServiceOf("cp", ocpp.V15, g.n.HTTP())
			g.n.Refuse(true)
			g.sends(k/2, 5, func() { svc.Send(&csreq.ClearCache{}) })
			g.n.Refuse(false)
			g.n.HangDial(true)
			g.sends(k/4, 10, func() { svc.Send(&csreq.ClearCache{}) })
			g.n.HangDial(false)
			ln, err := net.Listen("tcp", g.n.Addr())
			if err != nil {
				return
			}
			go func() {
				for i := 0; ; i++ {
					conn, err := ln.Accept()
					if err != nil {
						return
					}
					go func() {
						io.CopyN(io.Discard, conn, 20)
						switch i % 4 {
						case 0: // never answers
							io.Copy(io.Discard, conn)
							conn.Close()
							return
						case 1:
							conn.Write([]byte("HTTP/1.1 500 No\r\n\r\nx"))
						case 2:
							conn.Write([]byte("HTTP/1.1 200 OK\r\nContent-Length: 10\r\n\r\n<S:Env"))
						}
						conn.Close()
					}()
				}
			}()
			g.sends(k/4, 10, func() { svc.Send(&csreq.ClearCache{}) })
			ln.Close()
		}},
		{"waits", 3000, g0.csWithPeer("ok"), func(g *growthRig, k int) {
			for j := 0; j < k; j++ {
				g.csys.WaitDisconnect("nobody")
				g.csys.WaitConnect("nobody")
				g.csys.WaitConnect("cp")
				g.csys.WaitDisconnect("cp")
				g.csys.GetServiceOf("nobody", ocpp.V16, "")
				g.csys.GetServiceOf("cp", ocpp.V16, "")
			}
		}},
		{"cp-waits", 3000, g0.cpWithPeer("ok"), func(g *growthRig, k int) {
			for j := 0; j < k; j++ {
				g.p.WaitConnect()
				g.p.WaitDisconnect()
				g.p.Connection()
			}
		}},
	}
}

func (g *growthRig) raw(text string) {
	conn, err := net.Dial("tcp", g.n.Host())
	if err != nil {
		return
	}
	conn.Write([]byte(text))
	conn.SetReadDeadline(time.Now().Add(time.Second))
	io.Copy(io.Discard, conn)
	conn.Close()
	time.Sleep(5 * ms)
}

// bubbleGoroutines are the goroutines of the caller's bubble.
func bubbleGoroutines() (out []string) {
	buf := make([]byte, 4096)
	me := bubbleID(string(buf[:runtime.Stack(buf, false)]))
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if bubbleID(g) == me {
			out = append(out, g)
		}
	}
	return out
}

func heap() uint64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func c14Growth(c *Case) {
	op := growthOps[c.Idx%len(growthOps)]
	n := c.NewNet()
	n.Forget()
	g := &growthRig{c: c, n: n}
	if !op.setup(g) {
		c.Violate("setup", "%s: the workload could not be set up", op.name)
		return
	}
	window := op.n
	if c.Thorough() {
		window *= 4
	}
	if c.Idx >= len(growthOps) {
		c.R.IntN(2)
		window = window/2 + c.R.IntN(window)
	}
	rest := func() {
		settle(5 * time.Minute)
		progress.Add(1)
	}
	op.do(g, max(50, window/8)) // warm-up
	rest()
	const windows = 3
	var hs []uint64
	var gs []map[string]int
	var ngs []int
	for i := 0; i <= windows; i++ {
		if i > 0 {
			op.do(g, window)
			rest()
		}
		m := map[string]int{}
		k := 0
		for _, s := range bubbleGoroutines() {
			m[strings.Clone(stackSig(s))]++
			k++
		}
		gs, ngs = append(gs, m), append(ngs, k)
		hs = append(hs, heap())
	}
	more, heapMore, little := true, true, true
	var perOp, counts []string
	for i := 0; i <= windows; i++ {
		counts = append(counts, fmt.Sprint(ngs[i]))
		if i == 0 {
			continue
		}
		d := float64(hs[i]) - float64(hs[i-1])
		more = more && ngs[i] > ngs[i-1]
		heapMore = heapMore && d > 48*1024 && d > 48*float64(window)
		little = little && d > 4*1024 && d > 8*float64(window)
		perOp = append(perOp, fmt.Sprintf("%.1f", d/float64(window)))
	}
	if more {
		a, b := gs[0], gs[windows]
		for s, k := range b {
			if k > a[s]+windows-1 {
				c.Violate("goroutines:"+op.name, "%s: goroutines after each window of %d operations: %v; %d more of: %s", op.name, window, counts, k-a[s], s)
				break
			}
		}
	}
	if heapMore {
		c.Violate("memory:"+op.name, "%s: in each window of %d operations the heap grows, by these numbers of bytes per operation: %v", op.name, window, perOp)
	}
	if little && !heapMore && !c.Bad() {
		// perhaps something small is kept of each: look at far more of them
		few := perOp
		perOp = nil
		for i, last := 0, hs[windows]; i < 2; i++ {
			for k := 0; k < 6; k++ {
				op.do(g, window)
				rest()
			}
			h := heap()
			d := float64(h) - float64(last)
			last = h
			little = little && d > 48*1024 && d > 8*6*float64(window)
			perOp = append(perOp, fmt.Sprintf("%.1f", d/6/float64(window)))
		}
		c.Run.Count("second_looks", 1)
		if little {
			c.Violate("memory:"+op.name, "%s: in each window the heap grows, by these numbers of bytes per operation: %v (%d operations), %v (%d operations)", op.name, few, window, perOp, 6*window)
		}
	}
	c.Run.Count("operations", int64(windows*window))
	c.Eval(fmt.Sprint(op.name, window))
	c.Sample("%s: windows of %d operations; goroutines after each %v; heap bytes per operation in each %v", op.name, window, counts, perOp)
}
