package verifharness

// C09 registry, C10 listeners: random histories of connections of several
// charge points, compared at every quiescent moment with a model.

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/url"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	ocpp "github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

func init() {
	for _, p := range []string{"C09", "C10"} {
		register(p, func(r *Run) {
			r.Cases("history", r.N(600, 16000), histCase)
			r.Cases("fleet", r.N(16, 400), fleetCase)
			r.Cases("huge", 2, fleetCase)
		})
	}
}

func (p *peer) link() *Link { return p.ws.UnderlyingConn().(*simConn).link }

func (p *peer) setOnMsg(f func(p *peer, m *ocppMsg)) {
	p.mu.Lock()
	p.OnMsg = f
	p.mu.Unlock()
}

// httpRaw sends bytes to a port and returns what comes back until the end.
func (c *Case) httpRaw(n *Net, text string, wait time.Duration) string {
	conn, err := net.Dial("tcp", n.Host())
	if err != nil {
		return ""
	}
	defer conn.Close()
	conn.Write([]byte(text))
	conn.SetReadDeadline(time.Now().Add(wait))
	b, _ := io.ReadAll(conn)
	return string(b)
}

// httpGet gets a path of a port with a plain GET.
func (c *Case) httpGet(n *Net, path string) string {
	return c.httpRaw(n, "GET "+path+" HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", 10*time.Second)
}

var tagRe = regexp.MustCompile(`<[^>]*>`)
var numRe = regexp.MustCompile(`[0-9]+`)

// statusCount is the number of charge points on the status page (-1: none found).
func (c *Case) statusCount(n *Net) (int, string) {
	s := c.httpGet(n, "/")
	_, body, _ := strings.Cut(s, "\r\n\r\n")
	m := numRe.FindString(tagRe.ReplaceAllString(body, " "))
	if m == "" {
		return -1, s
	}
	k := 0
	fmt.Sscan(m, &k)
	return k, s
}

// soapCall makes a SOAP call as the charge point id.
func (c *Case) soapCall(n *Net, id string) *httpMsg {
	st := randStyle(c.R)
	for _, o := range ops15(true) {
		if o.Action == "Heartbeat" {
			ns, _, _ := o.bodyName(false)
			return c.post(n, st.doc(st.envelope(o.xmlTree(&cpreq.Heartbeat{}, false), "/"+o.Action, id, ns)))
		}
	}
	panic("no Heartbeat")
}

type hConn struct {
	id   string
	pe   *peer
	link *Link
	real *realCP
	open bool
	got  int // probes that arrived over this connection
}

type hWait struct {
	what   string // connect or disconnect
	id     string
	ch     <-chan struct{}
	cur    *hConn // disconnect: the connection current at the call
	conn   bool   // connect: connected at the call
	opened int    // connect: connections of the id before the call
}

type hist struct {
	c     *Case
	n     *Net
	csys  cs.CentralSystem
	ids   []string
	conns []*hConn
	waits []*hWait

	mu        sync.Mutex
	gate      chan struct{}
	calls     map[string][2]int // listener calls
	opened    map[string]int
	ended     map[string]int
	moves     map[string]int // ends begun and connects made, per id
	gen       int
	piles     int
	listenErr []string
	quiet     bool // the current operation is alone
	trace     []string
	lr        *rand.Rand
}

func (h *hist) openOf(id string) (out []*hConn) {
	for _, x := range h.conns {
		if x.id == id && x.open {
			out = append(out, x)
		}
	}
	return
}

// listener is a connection (0) or disconnection (1) listener of a generation.
func (h *hist) listener(which, gen int) cs.ChargePointConnectionListener {
	return func(id string) {
		h.mu.Lock()
		if gen != h.gen {
			h.listenErr = append(h.listenErr, fmt.Sprintf("stale-listener|a replaced listener was called for %q", id))
		}
		k := h.calls[id]
		k[which]++
		h.calls[id] = k
		mode := h.lr.IntN(6)
		quiet, gate, moves := h.quiet, h.gate, h.moves[id]
		h.mu.Unlock()
		if which == 0 && quiet {
			svc, err := h.csys.GetServiceOf(id, ocpp.V16, "")
			if err == nil && mode < 3 {
				_, err = svc.Send(&csreq.GetDiagnostics{Location: "listener"})
			}
			if err != nil {
				h.mu.Lock()
				// an end or another connect of the id meanwhile explains it
				if h.moves[id] == moves {
					h.listenErr = append(h.listenErr, fmt.Sprintf("unreachable-in-listener|in the connection listener's call for %q: %v", id, err))
				}
				h.mu.Unlock()
			}
		}
		switch mode {
		case 0:
			<-gate
		case 1:
			time.Sleep(time.Hour)
		case 2:
			time.Sleep(700 * ms)
		}
	}
}

func (h *hist) connect(id string) *hConn {
	x := &hConn{id: id}
	h.mu.Lock()
	h.moves[id]++
	h.mu.Unlock()
	if h.c.R.IntN(8) == 0 {
		x.real = h.c.mustCP(h.n, cpOpt{ID: id, Handler: func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			h.mu.Lock()
			x.got++
			h.mu.Unlock()
			return answerCS(q)
		}})
		if x.real == nil {
			return nil
		}
	} else {
		pe, err := h.c.rawCP(h.n, id)
		if err != nil {
			h.c.Violate("dial", "charge point %q could not connect: %v", id, err)
			return nil
		}
		x.pe, x.link = pe, pe.link()
		pe.setOnMsg(func(p *peer, m *ocppMsg) {
			if m.Type != 2 {
				return
			}
			q, bad := decodeCall(m, false)
			if bad != "" {
				return
			}
			h.mu.Lock()
			x.got++
			h.mu.Unlock()
			if a, err := answerCS(q); err == nil {
				p.Reply(m.ID, toJSON(a, schemaOf(m.Action+"Response")))
			}
		})
	}
	x.open = true
	h.mu.Lock()
	h.conns = append(h.conns, x)
	h.opened[id]++
	h.mu.Unlock()
	return x
}

func (h *hist) end(x *hConn) string {
	how := "cancel"
	h.mu.Lock()
	h.moves[x.id]++
	h.mu.Unlock()
	if x.real != nil {
		x.real.Cancel()
	} else {
		switch h.c.R.IntN(7) {
		case 0:
			how = "closeframe+close"
			x.pe.Raw(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""))
			x.pe.Close()
		case 1:
			how = "closeframe"
			x.pe.Raw(websocket.CloseMessage, websocket.FormatCloseMessage([]int{1000, 1001, 1011, 4000}[h.c.R.IntN(4)], "bye"))
		case 2:
			how = "tcpclose"
			x.pe.Close()
		case 3:
			how = "reset"
			x.link.Reset()
		case 4:
			how = "midframe"
			x.pe.ws.UnderlyingConn().Write([]byte{0x81, 0xfe, 0x10, 0x00, 1, 2, 3, 4, 'a', 'b'})
			x.pe.Close()
		case 5:
			how = "midframe-reset"
			x.pe.ws.UnderlyingConn().Write([]byte{0x81, 0x85, 1, 2, 3})
			x.link.Reset()
		case 6:
			how = "badframe"
			x.pe.ws.UnderlyingConn().Write([]byte{0x83, 0x80, 0, 0, 0, 0})
			time.Sleep(300 * ms)
			x.pe.Close()
		}
	}
	x.open = false
	h.mu.Lock()
	h.ended[x.id]++
	h.mu.Unlock()
	return how
}

func histCase(c *Case) {
	h := &hist{c: c, n: c.NewNet(), gate: make(chan struct{}), calls: map[string][2]int{}, opened: map[string]int{}, ended: map[string]int{}, moves: map[string]int{}, lr: rngFor(c.Seed, c.Kind, c.Idx, "listener")}
	nd := c.randNet(h.n)
	released := false
	release := func() {
		if !released {
			released = true
			close(h.gate)
		}
	}
	c.Defer(release)
	gate := h.gate
	h.csys = c.startCS(h.n, func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		if a, ok := q.(*cpreq.Authorize); ok && a.IdTag == "BLOCK" {
			<-gate
			return nil, errors.New("unblocked")
		}
		return answerCP(q)
	})
	h.csys.SetChargePointConnectionListener(h.listener(0, 0))
	h.csys.SetChargePointDisconnectionListener(h.listener(1, 0))
	for i := 0; i < 1+c.R.IntN(4); i++ {
		id := []string{"a", "b", "a b", "c/d", "ünï", "a%2Fb"}[i+c.R.IntN(3)%2]
		if c.R.IntN(4) == 0 {
			id = oddIDs[c.R.IntN(len(oddIDs))]
			if c.R.IntN(12) == 0 {
				id = ""
			}
		}
		h.ids = append(h.ids, id)
	}
	steps := 3 + c.R.IntN(14)
	for i := 0; i < steps && !c.Bad(); i++ {
		if i == 0 || c.R.IntN(3) > 0 {
			h.mu.Lock()
			h.quiet = true
			h.mu.Unlock()
			if !h.op() {
				return
			}
		} else {
			h.mu.Lock()
			h.quiet = false
			h.mu.Unlock()
			h.trace = append(h.trace, "burst{")
			for j := 0; j < 2+c.R.IntN(5); j++ {
				if !h.op() {
					return
				}
				if c.R.IntN(3) == 0 {
					time.Sleep(time.Duration(c.R.IntN(40)) * ms)
				}
			}
			h.trace = append(h.trace, "}")
		}
		c.Logf("%s", h.trace[len(h.trace)-1])
		h.check(i == steps-1)
	}
	// the end: everything disconnects
	for _, x := range h.conns {
		if x.open {
			h.end(x)
		}
	}
	h.trace = append(h.trace, "end")
	h.check(true)
	release()
	settle(2 * time.Hour)
	h.check(true)
	c.Eval(strings.Join(h.trace, " ") + nd)
	c.Sample("%s", strings.Join(h.trace, " "))
}

func (h *hist) op() bool {
	c := h.c
	id := h.ids[c.R.IntN(len(h.ids))]
	var open []*hConn
	for _, x := range h.conns {
		if x.open {
			open = append(open, x)
		}
	}
	k := c.R.IntN(17)
	switch {
	case k == 14: // the SOAP side of the same charge point
		h.trace = append(h.trace, "soap:"+id)
		switch c.R.IntN(4) {
		case 0:
			svc, err := h.csys.GetServiceOf(id, ocpp.V15, "http://nobody.test:1/")
			if err == nil && c.R.IntN(2) == 0 {
				c.sendCS(svc, &csreq.ClearCache{})
			}
		case 1:
			c.post(h.n, "<a/>")
		default:
			if m := c.soapCall(h.n, id); m.status() != 200 {
				c.Violate("soap", "a valid SOAP request of %q was answered with %s %s; history: %v", id, m.start, m.body, h.trace)
			}
		}
	case k == 15: // other HTTP requests to its URL
		h.trace = append(h.trace, "http:"+id)
		c.httpRaw(h.n, []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS"}[c.R.IntN(6)]+" /"+url.PathEscape(id)+" HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: 0\r\n\r\n", time.Second)
	case k == 16 && len(h.openOf(id)) > 3 && c.R.IntN(2) == 0: // all but one of them end
		xs := h.openOf(id)
		c.R.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
		if c.R.IntN(3) == 0 { // the oldest stays
			for i := range xs {
				if xs[i] == h.openOf(id)[0] {
					xs[0], xs[i] = xs[i], xs[0]
				}
			}
		}
		h.trace = append(h.trace, fmt.Sprint("-", len(xs)-1, id))
		for _, x := range xs[1:] {
			h.end(x)
		}
	case k == 16 && h.piles == 0 && c.R.IntN(4) == 0: // many connections of one identity
		h.piles++
		k := 6 + c.R.IntN(40)
		h.trace = append(h.trace, fmt.Sprint("+", k, id))
		for i := 0; i < k; i++ {
			if h.connect(id) == nil {
				return false
			}
			if c.R.IntN(4) == 0 {
				time.Sleep(time.Duration(c.R.IntN(400)) * ms)
			}
		}
	case k < 5 || len(open) == 0 && k < 10:
		if h.connect(id) == nil {
			return false
		}
		h.trace = append(h.trace, "+"+id)
	case k < 9:
		x := open[c.R.IntN(len(open))]
		how := h.end(x)
		h.trace = append(h.trace, "-"+x.id+":"+how)
	case k == 9:
		for _, x := range open {
			if x.pe != nil {
				x.pe.Call(fmt.Sprintf("b%d", len(h.trace)), "Authorize", map[string]any{"idTag": "BLOCK"})
				h.trace = append(h.trace, "block:"+x.id)
				break
			}
		}
	case k == 10:
		h.trace = append(h.trace, "badupgrade")
		reqs := []string{
			"GET /%s HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\n\r\n",
			"GET /%s HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 12\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n",
			"POST /%s HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n",
			"GET /%s HTTP/1.1\r\nHost: x\r\n\r\n",
		}
		c.httpRaw(h.n, fmt.Sprintf(reqs[c.R.IntN(len(reqs))], strings.ReplaceAll(id, " ", "%20")), 200*ms)
	case k == 11 && h.quiet:
		h.trace = append(h.trace, "swap")
		h.mu.Lock()
		h.gen++
		g := h.gen
		h.mu.Unlock()
		h.csys.SetChargePointConnectionListener(h.listener(0, g))
		h.csys.SetChargePointDisconnectionListener(h.listener(1, g))
	default:
		h.trace = append(h.trace, "time")
		time.Sleep(time.Duration(c.R.IntN(2000)) * ms)
	}
	return true
}

// check compares a quiescent moment with the model.
func (h *hist) check(last bool) {
	c := h.c
	settle(900 * ms)
	open := 0
	for _, id := range append([]string{"never"}, h.ids...) {
		if len(h.openOf(id)) > 0 {
			open++
		}
	}
	if dup := map[string]bool{}; len(h.ids) > 0 {
		open = 0
		for _, id := range h.ids {
			if !dup[id] && len(h.openOf(id)) > 0 {
				open++
			}
			dup[id] = true
		}
	}
	tr := strings.Join(h.trace, " ")
	if c.Prop == "C10" {
		h.mu.Lock()
		for _, e := range h.listenErr {
			k, d, _ := strings.Cut(e, "|")
			c.Violate(k, "%s; history: %s", d, tr)
		}
		for id, k := range h.calls {
			if h.opened[id] == 0 && k != [2]int{} {
				c.Violate("foreign-id", "a listener was called with %q, which never connected; history: %s", id, tr)
			}
		}
		for id := range h.opened {
			k := h.calls[id]
			if k[0] != h.opened[id] {
				c.Violate("connect-calls", "%q connected %d times, its connection listener was called %d times; history: %s", id, h.opened[id], k[0], tr)
			}
			if k[1] != h.ended[id] {
				c.Violate("disconnect-calls", "%d connections of %q have ended, the disconnection listener was called %d times; history: %s", h.ended[id], id, k[1], tr)
			}
			c.Run.Count("listener_counts_checked", 2)
		}
		h.mu.Unlock()
	}
	for _, id := range append([]string{"never"}, h.ids...) {
		conns := h.openOf(id)
		var wd, wc <-chan struct{}
		if c.Prop == "C09" {
			wd, wc = h.csys.WaitDisconnect(id), h.csys.WaitConnect(id)
		}
		svc, err := h.csys.GetServiceOf(id, ocpp.V16, "")
		var cur *hConn
		switch {
		case err != nil && len(conns) > 0:
			c.Violate("not-found", "GetServiceOf(%q) failed (%v) with %d open connections; history: %s", id, err, len(conns), tr)
		case err == nil && len(conns) == 0:
			c.Violate("found-absent", "GetServiceOf(%q) succeeded although none of its connections is open; history: %s", id, tr)
		case err == nil:
			h.mu.Lock()
			before := make([]int, len(h.conns))
			for i, x := range h.conns {
				before[i] = x.got
			}
			h.mu.Unlock()
			s := c.sendCS(svc, &csreq.UnlockConnector{ConnectorId: 1})
			if !s.Within(5 * time.Second) {
				c.Violate("unreachable", "a request to %q (with %d open connections) was not answered within 5 s; history: %s", id, len(conns), tr)
			} else if s.Err != nil {
				c.Violate("unreachable", "a request to %q (with %d open connections) failed: %v; history: %s", id, len(conns), s.Err, tr)
			}
			h.mu.Lock()
			for i, x := range h.conns {
				if x.got != before[i] {
					if x.id != id || !x.open || cur != nil || x.got != before[i]+1 {
						c.Violate("misdelivered", "a request to %q arrived at a connection of %q (open: %v); history: %s", id, x.id, x.open, tr)
					}
					cur = x
				}
			}
			h.mu.Unlock()
		}
		c.Run.Count("registry_probes", 1)
		if c.Prop == "C09" {
			if isSig(wc) != (len(conns) > 0) {
				c.Violate("waitconnect", "WaitConnect(%q) signalled=%v with %d open connections; history: %s", id, isSig(wc), len(conns), tr)
			}
			if len(h.waits) < 60 && (c.R.IntN(2) == 0) {
				h.waits = append(h.waits, &hWait{what: "connect", id: id, ch: wc, conn: len(conns) > 0, opened: h.opened[id]},
					&hWait{what: "disconnect", id: id, ch: wd, cur: cur})
			} else if isSig(wd) != (len(conns) == 0) {
				c.Violate("waitdisconnect", "WaitDisconnect(%q) signalled=%v with %d open connections; history: %s", id, isSig(wd), len(conns), tr)
			}
		}
	}
	if c.Prop == "C09" {
		for _, w := range h.waits {
			want := false
			if w.what == "connect" {
				want = w.conn || h.opened[w.id] > w.opened
			} else {
				want = w.cur == nil || !w.cur.open
			}
			if got := isSig(w.ch); got != want {
				c.Violate("wait"+w.what+"-later", "a channel of Wait%s(%q) obtained earlier: signalled=%v, should be %v; history: %s", strings.ToUpper(w.what[:1])+w.what[1:], w.id, got, want, tr)
			}
			c.Run.Count("wait_channels_checked", 1)
		}
		if k, s := c.statusCount(h.n); k != open {
			c.Violate("status-page", "%d charge points are connected, the status page says %d: %.300q; history: %s", open, k, s, tr)
		}
	}
	c.Run.Count("quiescent_checks", 1)
}
