package verifharness

// C11 identities, C15 isolation between peers, C19 subprotocols,
// C20 independence of instances, C23 handshakes.

import (
	"crypto/sha1"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	ocpp "github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

func init() {
	register("C11", func(r *Run) { r.Cases("ids", r.N(500, 12000), c11IDs) })
	register("C15", func(r *Run) {
		r.Cases("offend", r.N(300, 8000), c15Offend)
		r.Cases("crowd", r.N(2, 40), c15Offend)
	})
	register("C19", func(r *Run) {
		r.Cases("cs", r.N(600, 12000), c19CS)
		r.Cases("cp", r.N(300, 6000), c19CP)
	})
	register("C20", func(r *Run) { r.Cases("many", r.N(250, 6000), c20Many) })
	register("C23", func(r *Run) {
		r.Cases("server", r.N(400, 10000), c23Server)
		r.Cases("client", r.N(500, 10000), c23Client)
	})
}

// ---------------------------------------------------------------- C11

var oddIDs = []string{
	"CP1", "cp 1", " lead", "trail ", "a/b", "a//b", "/abs", "dir/", "..", ".", "a/../b", "./x", "a%20b", "a%2Fb", "100%", "%", "%zz", "a?b=c", "?", "a#b", "#",
	"ü", "日本語", "e\u0301", "\u00e9", "🔌", "a+b", "a b+c", "a&b=c;d", "a:b", "host:80/x", "http://x/y", "~user", "a\\b", "\"q\"", "<a>&amp;", "'", "[x]", "{x}", "a,b", "@", "$", "!*()",
	"0", "00", "-1", "null", "\u200b", "\u202e", "CP1 ", "cp1", "ocpp", "ws", strings.Repeat("x", 48), strings.Repeat("long/", 60), strings.Repeat("é%", 150),
}

// oddID makes an identity; binary ones cannot be carried by XML.
func oddID(r *rand.Rand, xml bool) string {
	if !xml && r.IntN(50) == 0 {
		return "" // its URL ends in a slash
	}
	for {
		s := oddIDs[r.IntN(len(oddIDs))]
		switch r.IntN(6) {
		case 0:
			s += oddIDs[r.IntN(len(oddIDs))]
		case 1:
			s = fmt.Sprintf("%s%d", s, r.IntN(1000))
		case 2:
			if !xml {
				b := make([]byte, 1+r.IntN(6))
				for i := range b {
					b[i] = byte(r.IntN(256))
				}
				s += string(b)
			}
		case 3:
			g := &gen{R: r, XML: true}
			s = g.nonEmpty(g.str)
		}
		if xml && (s != strings.TrimSpace(s) || strings.ContainsAny(s, "\r\n\t")) {
			continue
		}
		if s != "" && len(s) < 1500 {
			return s
		}
	}
}

type c11Seen struct {
	id, key, xtag, remote, path string
	host, query, method         string
	hdr                         http.Header
	noReq                       bool
}

// misleading are headers that say something about who is calling, which is not
// what OCPP identifies a charge point by.
func misleading(r *rand.Rand) http.Header {
	h := http.Header{}
	for i := r.IntN(4); i > 0; i-- {
		x := [][2]string{{"X-Forwarded-For", "203.0.113.7, 10.0.0.1"}, {"Forwarded", `for="[2001:db8::1]:4711";host=other`}, {"X-Real-Ip", "198.51.100.3"}, {"True-Client-Ip", "198.51.100.4"},
			{"X-Forwarded-Host", "other.example"}, {"X-Forwarded-Prefix", "/other"}, {"X-Original-Url", "/other"}, {"X-Rewrite-Url", "/other"}, {"Authorization", "Basic b3RoZXI6c2VjcmV0"}, {"Authorization", "Bearer other"},
			{"X-Charge-Point-Id", "other"}, {"Chargeboxidentity", "other"}, {"Cookie", "id=other"}, {"User-Agent", "other/1.0"}, {"From", "other@example.com"}, {"Referer", "http://other/"}, {"Via", "1.1 other"}, {"X-Http-Method-Override", "PUT"}, {"Soapaction", `"/Other"`}}[r.IntN(19)]
		h.Set(x[0], x[1])
	}
	return h
}

// wsKey is the Sec-WebSocket-Key the client of a link sent.
func (l *Link) wsKey() string {
	b := string(l.C2S.Bytes())
	h, _, _ := strings.Cut(b, "\r\n\r\n")
	for _, x := range strings.Split(h, "\r\n") {
		k, v, _ := strings.Cut(x, ":")
		if strings.EqualFold(k, "Sec-WebSocket-Key") {
			return strings.TrimSpace(v)
		}
	}
	return ""
}

func (p *realCP) link() *Link {
	conn := p.Connection()
	if conn == nil {
		return nil
	}
	s, _ := conn.UnderlyingConn().(*simConn)
	if s == nil {
		return nil
	}
	return s.link
}

func c11IDs(c *Case) {
	n := c.NewNet()
	nd := c.randNet(n)
	var mu sync.Mutex
	seen := map[string][]c11Seen{} // by tag
	var connected, gone []string
	csys := c.startCS(n, func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		a, ok := q.(*cpreq.Authorize)
		if !ok {
			return nil, errors.New("unexpected")
		}
		x := c11Seen{id: m.ChargePointID, noReq: m.HTTPRequest == nil}
		if r := m.HTTPRequest; r != nil {
			x.key, x.xtag, x.remote, x.path = r.Header.Get("Sec-WebSocket-Key"), r.Header.Get("X-Tag"), r.RemoteAddr, r.URL.Path
			x.host, x.query, x.method, x.hdr = r.Host, r.URL.RawQuery, r.Method, r.Header.Clone()
		}
		mu.Lock()
		seen[a.IdTag] = append(seen[a.IdTag], x)
		mu.Unlock()
		return answerCP(q)
	})
	csys.SetChargePointConnectionListener(func(id string) { mu.Lock(); connected = append(connected, id); mu.Unlock() })
	csys.SetChargePointDisconnectionListener(func(id string) { mu.Lock(); gone = append(gone, id); mu.Unlock() })
	type party struct {
		id   string
		real *realCP
		pe   *peer
		soap bool
		raw  bool // scripted SOAP caller
		got  []string
		link *Link
		m    *Net

		hdr    http.Header // what it adds to its HTTP requests
		query  string
		method string
		host   string
	}
	var ps []*party
	ids := map[string]bool{}
	wantConn := []string{}
	k := 1 + c.R.IntN(6)
	desc := ""
	for i := 0; i < k; i++ {
		p := &party{}
		what := c.R.IntN(8)
		p.soap = what == 4 || what == 5
		p.raw = what == 5
		p.id = oddID(c.R, p.soap)
		if len(ps) > 0 && c.R.IntN(4) == 0 {
			p.id = ps[c.R.IntN(len(ps))].id // overlapping or repeated
			if p.soap && (p.id != strings.TrimSpace(p.id) || !xmlCarries(p.id)) {
				continue
			}
		}
		ids[p.id] = true
		rec := func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			if x, ok := q.(*csreq.ChangeConfiguration); ok {
				mu.Lock()
				p.got = append(p.got, x.Key)
				mu.Unlock()
			}
			return answerCS(q)
		}
		switch {
		case p.raw:
			p.hdr, p.method = misleading(c.R), "POST"
		case p.soap:
			p.m = c.NewNet()
			addr := p.m.Addr()
			p.real = c.mustCP(n, cpOpt{ID: p.id, SOAP: true, Port: &addr, Handler: rec})
			if p.real == nil || !waitListening(p.m) {
				return
			}
		case what < 4:
			o := cpOpt{ID: p.id, Handler: rec}
			p.method, p.host = "GET", n.Host()
			p.real = c.mustCP(n, o)
			if p.real == nil {
				return
			}
			wantConn = append(wantConn, p.id)
		default:
			p.hdr, p.method, p.host = misleading(c.R), "GET", n.Host()
			hdr := p.hdr.Clone()
			hdr.Set("X-Tag", fmt.Sprint("conn", i))
			u := n.WS() + "/" + url.PathEscape(p.id)
			if c.R.IntN(3) == 0 {
				p.query = []string{"id=other", "token=abc&chargePointId=other", "/other", "x"}[c.R.IntN(4)]
				u += "?" + p.query
			}
			d := websocket.Dialer{Subprotocols: []string{"ocpp1.6"}}
			s, _, err := d.Dial(u, hdr)
			if err != nil {
				c.Violate("dial", "charge point %q could not connect: %v", p.id, err)
				return
			}
			p.pe = newPeer(c, p.id, s)
			c.Defer(p.pe.Close)
			p.pe.OnMsg = func(pe *peer, m *ocppMsg) {
				q, bad := decodeCall(m, false)
				if m.Type != 2 || bad != "" {
					return
				}
				a, err := rec(q.(csreq.CentralSystemRequest))
				if err == nil {
					pe.Reply(m.ID, toJSON(a, schemaOf(m.Action+"Response")))
				}
			}
			go p.pe.pump()
			wantConn = append(wantConn, p.id)
		}
		if p.real != nil && p.real.Identity() != p.id {
			c.Violate("identity", "created as %q, Identity() returns %q", p.id, p.real.Identity())
		}
		ps = append(ps, p)
		desc += fmt.Sprintf(" %d:%q", what, p.id)
	}
	tags := 0
	round := func() {
		type exp struct {
			tag string
			p   *party
		}
		var exps []exp
		var wait []*Op
		for j := 0; j < 1+c.R.IntN(3*len(ps)); j++ {
			p := ps[c.R.IntN(len(ps))]
			tags++
			tag := fmt.Sprintf("t%d", tags)
			exps = append(exps, exp{tag, p})
			switch {
			case p.raw:
				body := newEnvelopeFor(p.id, &cpreq.Authorize{IdTag: tag})
				wait = append(wait, c.Go(func() {
					hdr := []string{"X-Tag: " + tag}
					for k, v := range p.hdr {
						hdr = append(hdr, k+": "+v[0])
					}
					m := c.post(n, body, hdr...)
					if m.status() != 200 {
						c.Violate("soap-call", "a SOAP call as %q was answered with status %d", p.id, m.status())
					}
				}))
			case p.pe != nil:
				p.pe.Call(tag, "Authorize", map[string]any{"idTag": tag})
			default:
				s := c.sendCP(p.real, &cpreq.Authorize{IdTag: tag})
				wait = append(wait, s.Op)
			}
		}
		for _, w := range wait {
			w.Within(time.Minute)
		}
		settle(5 * time.Second)
		mu.Lock()
		defer mu.Unlock()
		for _, e := range exps {
			xs := seen[e.tag]
			if len(xs) != 1 {
				c.Violate("handled", "request %s of %q was handled %d times", e.tag, e.p.id, len(xs))
				continue
			}
			x := xs[0]
			c.Run.Count("metadata_checked", 1)
			if x.id != e.p.id {
				c.Violate("metadata-id", "a request of %q was handled with ChargePointID %q", e.p.id, x.id)
			}
			if x.noReq {
				c.Violate("metadata-request", "a request of %q was handled without its HTTP request", e.p.id)
				continue
			}
			for k, v := range e.p.hdr {
				if x.hdr.Get(k) != v[0] {
					c.Violate("metadata-request", "%q calls with the header %s: %s, the handler's HTTPRequest has %q", e.p.id, k, v[0], x.hdr[k])
				}
			}
			if e.p.query != x.query || e.p.method != "" && e.p.method != x.method || e.p.host != "" && e.p.host != x.host {
				c.Violate("metadata-request", "%q calls with %s, the query %q and the host %q, the handler's HTTPRequest has %s, %q and %q", e.p.id, e.p.method, e.p.query, e.p.host, x.method, x.query, x.host)
			}
			var l *Link
			switch {
			case e.p.raw:
				if x.xtag != e.tag {
					c.Violate("metadata-request", "SOAP call %s of %q was handled with the HTTP request of %q", e.tag, e.p.id, x.xtag)
				}
			case e.p.soap:
				for _, y := range n.Links() {
					if strings.Contains(string(y.C2S.Bytes()), ">"+e.tag+"<") {
						l = y
					}
				}
			case e.p.pe != nil:
				l = e.p.pe.link()
			default:
				l = e.p.real.link()
			}
			if l != nil {
				if want := l.client.local.String(); x.remote != want {
					c.Violate("metadata-request", "request %s of %q came over the connection from %s, its HTTPRequest is of the one from %s", e.tag, e.p.id, want, x.remote)
				}
				if !e.p.soap && x.key != l.wsKey() {
					c.Violate("metadata-request", "request %s of %q: HTTPRequest has Sec-WebSocket-Key %q, the connection's is %q", e.tag, e.p.id, x.key, l.wsKey())
				}
			}
		}
	}
	round()
	// the central system reaches them under that identity
	for id := range ids {
		var cands []*party
		for _, p := range ps {
			if p.id == id && !p.soap {
				cands = append(cands, p)
			}
		}
		if isSig(csys.WaitConnect(id)) != (len(cands) > 0) {
			c.Violate("waitconnect", "WaitConnect(%q) is signalled: %v, with %d connections", id, len(cands) == 0, len(cands))
		}
		svc, err := csys.GetServiceOf(id, ocpp.V16, "")
		if (err == nil) != (len(cands) > 0) {
			c.Violate("getserviceof", "GetServiceOf(%q) returned %v with %d connections", id, err, len(cands))
		}
		if err == nil {
			tags++
			tag := fmt.Sprintf("t%d", tags)
			s := c.sendCS(svc, &csreq.ChangeConfiguration{Key: tag, Value: "v"})
			s.Within(time.Minute)
			hit := 0
			mu.Lock()
			for _, p := range ps {
				for _, g := range p.got {
					if g == tag {
						hit++
						if p.id != id {
							c.Violate("misdelivered", "a request for %q arrived at %q", id, p.id)
						}
					}
				}
			}
			mu.Unlock()
			if hit != 1 || s.Err != nil {
				c.Violate("unreachable", "a request for %q arrived %d times, Send returned %v", id, hit, s.Err)
			}
		}
	}
	for _, p := range ps {
		if p.m == nil {
			continue
		}
		svc, err := csys.GetServiceOf(p.id, ocpp.V15, p.m.HTTP())
		if err != nil {
			c.Violate("getserviceof", "GetServiceOf(%q, 1.5) returned %v", p.id, err)
			continue
		}
		tags++
		tag := fmt.Sprintf("t%d", tags)
		s := c.sendCS(svc, &csreq.ChangeConfiguration{Key: tag, Value: "v"})
		s.Within(time.Minute)
		if s.Err != nil || len(p.got) != 1 {
			c.Violate("unreachable", "a SOAP request for %q: %v, handled %d times", p.id, s.Err, len(p.got))
		}
		for _, l := range p.m.Links() {
			m := parseHTTP(l.C2S.Bytes(), false)
			root, err := parseXML(m.body)
			if err != nil {
				c.Violate("chargeboxidentity", "request for %q is not XML: %v", p.id, err)
				continue
			}
			if h := findName(root, "chargeBoxIdentity"); h == nil || h.Text != p.id {
				c.Violate("chargeboxidentity", "a request for %q names another charge point: %.400s", p.id, m.body)
			}
		}
	}
	// after a reconnection it is the new connection's request
	again := false
	for _, p := range ps {
		if p.real != nil && !p.soap && c.R.IntN(3) == 0 {
			if l := p.real.link(); l != nil {
				l.Reset()
				again = true
				wantConn = append(wantConn, p.id)
			}
		}
	}
	if again {
		settle(15 * time.Second)
		round()
	}
	mu.Lock()
	sort.Strings(connected)
	sort.Strings(wantConn)
	if strings.Join(connected, "\x00") != strings.Join(wantConn, "\x00") {
		c.Violate("listener-id", "the connection listener was called with %q, connected were %q", connected, wantConn)
	}
	for _, g := range gone {
		if !ids[g] {
			c.Violate("listener-id", "the disconnection listener was called with %q, which never connected", g)
		}
	}
	mu.Unlock()
	c.Eval(desc + nd + fmt.Sprint(again))
	c.Sample("%s", desc)
}

func xmlCarries(s string) bool {
	for _, r := range s {
		if r < 0x20 || r == 0xfffd || r == 0xfffe || r == 0xffff {
			return false
		}
	}
	return true
}

func findName(n *xnode, name string) *xnode {
	if n.Name == name {
		return n
	}
	for _, k := range n.Kids {
		if x := findName(k, name); x != nil {
			return x
		}
	}
	return nil
}

// newEnvelopeFor is a SOAP request of a charge point, written plainly.
func newEnvelopeFor(id string, q cpreq.ChargePointRequest) string {
	o := opOfReq(q)
	st := &xmlStyle{r: rand.New(rand.NewPCG(1, 2)), prefix: map[string]string{nsSOAP: "S", nsWSA: "wsa", nsCS: "cs", nsCP: "cp"}}
	return st.doc(st.envelope(o.xmlTree(q, false), o.Action, id, nsCS))
}

// ---------------------------------------------------------------- C15

func c15Offend(c *Case) {
	n := c.NewNet()
	lat := time.Duration(c.R.IntN(40)) * ms
	n.Latency = func(bool) time.Duration { return lat }
	gate := make(chan struct{})
	c.Defer(func() { close(gate) })
	csys := c.startCS(n, func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		if a, ok := q.(*cpreq.Authorize); ok {
			if a.IdTag == "BLOCK" {
				<-gate
				return nil, errors.New("unblocked")
			}
			if a.IdTag == "SLOW" {
				time.Sleep(20 * time.Second)
			}
			if a.IdTag == "BIG" {
				return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{ParentIdTag: strings.Repeat("z", 5000), Status: "Accepted"}}, nil
			}
		}
		return answerCP(q)
	})
	blockListeners := c.R.IntN(3) == 0
	listen := func(id string) {
		if blockListeners && strings.HasPrefix(id, "bad") {
			<-gate
		}
	}
	csys.SetChargePointConnectionListener(listen)
	csys.SetChargePointDisconnectionListener(listen)

	// the well-behaved
	good := func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) { return answerCS(q) }
	rawGood := func(id string) *peer {
		pe, err := c.rawCP(n, id)
		if err != nil {
			c.Violate("victim-connect", "%q could not connect: %v", id, err)
			return nil
		}
		pe.setOnMsg(func(p *peer, m *ocppMsg) {
			if q, bad := decodeCall(m, false); m.Type == 2 && bad == "" {
				if a, err := good(q.(csreq.CentralSystemRequest)); err == nil {
					p.Reply(m.ID, toJSON(a, schemaOf(m.Action+"Response")))
				}
			}
		})
		return pe
	}
	v1 := rawGood("good-raw")
	v2 := c.mustCP(n, cpOpt{ID: "good-real", Handler: good})
	sm := c.NewNet()
	addr := sm.Addr()
	v3 := c.mustCP(n, cpOpt{ID: "good-soap", SOAP: true, Port: &addr, Handler: good})
	if v1 == nil || v2 == nil || v3 == nil || !waitListening(sm) {
		return
	}

	// the others
	modes := []string{"silent", "midframe", "not-reading", "flood", "garbage", "churn", "block", "slow", "half-handshake", "soap-stall", "soap-block", "same-id", "dead-soap", "hole", "big", "slow-soap-drip", "unread-handshake"}
	var chosen []string
	stop := make(chan struct{})
	c.Defer(func() { close(stop) })
	stopped := func() bool { return isSig(stop) }
	bad := 1 + c.R.IntN(4)
	crowd := ""
	if c.Kind == "crowd" { // very many of one kind
		n.Forget()
		crowd = []string{"silent", "half-handshake", "block", "soap-stall", "hole", "soap-block", "churn", "unread-handshake"}[c.Idx%8]
		bad = 600 + c.R.IntN(2500)
	}
	for i := 0; i < bad; i++ {
		mode := modes[c.R.IntN(len(modes))]
		if crowd != "" {
			mode = crowd
		}
		if i < 4 {
			chosen = append(chosen, mode)
		} else if i == 4 {
			chosen = append(chosen, fmt.Sprint(bad))
		}
		if i%50 == 0 {
			progress.Add(1)
		}
		few := func(k int) int { // of a crowd each does little
			if crowd != "" {
				return min(k, 3)
			}
			return k
		}
		id := fmt.Sprintf("bad%d", i)
		r := rngFor(c.Seed, c.Kind, c.Idx, "offender", i)
		service := func(k int) {
			if svc, err := csys.GetServiceOf(id, ocpp.V16, ""); err == nil {
				for j := 0; j < k; j++ {
					c.sendCS(svc, tagCSReq(r, fmt.Sprintf("x%d", j)))
				}
			}
		}
		// dial without a pump: such a peer never reads
		mute := func(setup func(l *Link)) *peer {
			d := websocket.Dialer{Subprotocols: []string{"ocpp1.6"}}
			s, _, err := d.Dial(n.WS()+"/"+id, nil)
			if err != nil {
				return nil
			}
			pe := newPeer(c, id, s)
			c.Defer(pe.Close)
			if setup != nil {
				setup(pe.link())
			}
			return pe
		}
		switch mode {
		case "silent":
			mute(nil)
			settle(100 * ms)
			service(few(1 + r.IntN(300)))
		case "midframe":
			if pe := mute(nil); pe != nil {
				pe.ws.UnderlyingConn().Write([]byte{0x81, 0xfe, 0x10, 0x00, 1, 2, 3, 4, 'a', 'b'}[:2+r.IntN(9)])
			}
			settle(100 * ms)
			service(few(r.IntN(20)))
		case "not-reading", "big":
			pe := mute(func(l *Link) { l.S2C.SetCapacity(1 + r.IntN(4000)) })
			if pe == nil {
				break
			}
			tag := "BIG"
			if mode == "not-reading" {
				tag = "t1"
			}
			// one writer only: others would wait for its lock, which stops virtual time
			if r.IntN(3) == 0 {
				settle(100 * ms)
				if svc, err := csys.GetServiceOf(id, ocpp.V16, ""); err == nil {
					c.sendCS(svc, &csreq.ChangeConfiguration{Key: "k", Value: strings.Repeat("v", 5000)})
				}
				break
			}
			for j := 0; j < 20+r.IntN(600); j++ {
				pe.Call(fmt.Sprintf("c%d", j), "Authorize", map[string]any{"idTag": tag})
			}
		case "hole":
			pe, err := c.rawCP(n, id)
			if err == nil {
				pe.link().S2C.Hole(true)
				pe.link().C2S.Hole(true)
			}
			service(few(1 + r.IntN(50)))
		case "flood":
			pe, err := c.rawCP(n, id)
			if err != nil {
				break
			}
			go func() {
				for j := 0; j < 4000 && !stopped(); j++ {
					pe.Call(fmt.Sprintf("c%d", j), "Authorize", map[string]any{"idTag": []string{"t1", "SLOW", "ERR"}[r.IntN(3)]})
					if j%50 == 0 {
						time.Sleep(10 * ms)
					}
				}
			}()
		case "garbage":
			pe, err := c.rawCP(n, id)
			if err != nil {
				break
			}
			go func() {
				for j := 0; j < 1500 && !stopped(); j++ {
					pe.Raw(1+r.IntN(2), []byte([]string{"", "{", "[]", "[2]", "[3,\"x\",{}]", "[4,\"x\",\"y\",\"z\",{}]", "null", "[2,\"a\",\"Nope\",{}]", "\xff\xfe", strings.Repeat("[", 500)}[r.IntN(10)]))
					if j%50 == 0 {
						time.Sleep(10 * ms)
					}
				}
			}()
		case "churn", "same-id":
			go func() {
				for j := 0; j < few(150) && !stopped(); j++ {
					id := id
					if mode == "same-id" {
						id = "good-other"
					}
					pe, err := c.rawCP(n, id)
					if err != nil {
						continue
					}
					switch r.IntN(4) {
					case 0:
						pe.Close()
					case 1:
						pe.link().Reset()
					case 2:
						pe.Call("1", "Authorize", map[string]any{"idTag": "BLOCK"})
						pe.Close()
					}
					time.Sleep(time.Duration(r.IntN(60)) * ms)
				}
			}()
		case "block", "slow":
			pe, err := c.rawCP(n, id)
			if err == nil {
				tag := strings.ToUpper(mode)
				for j := 0; j < few(1+r.IntN(400)); j++ {
					pe.Call(fmt.Sprintf("b%d", j), "Authorize", map[string]any{"idTag": tag})
				}
			}
			settle(50 * ms)
			service(few(r.IntN(20)))
		case "half-handshake":
			for j := 0; j < few(1+r.IntN(20)); j++ {
				conn, err := net.Dial("tcp", n.Host())
				if err != nil {
					break
				}
				s := "GET /" + id + " HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\n"
				if r.IntN(2) == 0 { // a body that never comes
					conn.Write([]byte(s + "Content-Length: 10\r\n\r\n" + "abcdefghi"[:r.IntN(10)]))
				} else {
					conn.Write([]byte(s[:r.IntN(len(s))]))
				}
				c.Defer(func() { conn.Close() })
			}
		case "unread-handshake": // one that does not take the answer
			for j := 0; j < few(1+r.IntN(5)); j++ {
				conn, err := net.Dial("tcp", n.Host())
				if err != nil {
					break
				}
				conn.(*simConn).link.S2C.SetCapacity(1 + r.IntN(100)) // the answer to the first fills it
				conn.Write([]byte("GET /status HTTP/1.1\r\nHost: x\r\n\r\nGET /" + id + " HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Protocol: ocpp1.6\r\n\r\n"))
				c.Defer(func() { conn.Close() })
			}
		case "soap-stall":
			for j := 0; j < few(1+r.IntN(20)); j++ {
				conn, err := net.Dial("tcp", n.Host())
				if err != nil {
					break
				}
				conn.Write([]byte("POST / HTTP/1.1\r\nHost: x\r\nContent-Type: application/soap+xml\r\nContent-Length: 1000\r\n\r\n<S:Envelope"))
				c.Defer(func() { conn.Close() })
			}
		case "slow-soap-drip":
			body := newEnvelopeFor(id, &cpreq.Authorize{IdTag: "t1"})
			conn, err := net.Dial("tcp", n.Host())
			if err == nil {
				c.Defer(func() { conn.Close() })
				go func() {
					fmt.Fprintf(conn, "POST / HTTP/1.1\r\nHost: x\r\nContent-Type: application/soap+xml\r\nContent-Length: %d\r\n\r\n", len(body))
					for j := range body {
						if stopped() {
							return
						}
						conn.Write([]byte{body[j]})
						time.Sleep(50 * ms)
					}
				}()
			}
		case "soap-block":
			for j := 0; j < few(1+r.IntN(30)); j++ {
				conn, err := net.Dial("tcp", n.Host())
				if err != nil {
					break
				}
				body := newEnvelopeFor(id, &cpreq.Authorize{IdTag: []string{"BLOCK", "SLOW"}[r.IntN(2)]})
				fmt.Fprintf(conn, "POST / HTTP/1.1\r\nHost: x\r\nContent-Type: application/soap+xml\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
				c.Defer(func() { conn.Close() })
			}
		case "dead-soap":
			dn := c.NewNet()
			if r.IntN(2) == 0 {
				dn.HangDial(true)
			} else {
				c.httpStub(dn, func(conn net.Conn, l *Link, b []byte) { <-gate })
			}
			if svc, err := csys.GetServiceOf(id, ocpp.V15, dn.HTTP()); err == nil {
				for j := 0; j < few(1+r.IntN(20)); j++ {
					c.sendCS(svc, &csreq.ClearCache{})
				}
			}
		}
	}

	// what the well-behaved notice
	limit := time.Second + 10*lat
	var slow time.Duration
	check := func(what string, o *Op, start time.Time, err func() error) {
		if !o.Within(2 * time.Minute) {
			c.Violate("victim-stalled:"+what, "with offenders %v, %s did not finish within 2 minutes", chosen, what)
			return
		}
		if e := err(); e != nil {
			c.Violate("victim-broken:"+what, "with offenders %v, %s failed: %v", chosen, what, e)
			return
		}
		d := o.At.Sub(start)
		if d > slow {
			slow = d
		}
		if d > limit {
			c.Violate("victim-delayed:"+what, "with offenders %v, %s took %v (latency of the network: %v)", chosen, what, d, lat)
		}
		c.Run.Count("victim_operations", 1)
	}
	for round := 0; round < 6 && !c.Bad(); round++ {
		id := fmt.Sprintf("v%d", round)
		start := time.Now()
		v1.Call(id, "Authorize", map[string]any{"idTag": id})
		o1 := c.Go(func() {
			v1.Answer(2*time.Minute, id)
		})
		s2 := c.sendCP(v2, &cpreq.Authorize{IdTag: id})
		s3 := c.sendCP(v3, &cpreq.Authorize{IdTag: id})
		var downs []*sent
		var names []string
		for _, who := range []string{"good-raw", "good-real", "good-soap"} {
			ver, u := ocpp.V16, ""
			if who == "good-soap" {
				ver, u = ocpp.V15, sm.HTTP()
			}
			svc, err := csys.GetServiceOf(who, ver, u)
			if err != nil {
				c.Violate("victim-lost", "with offenders %v, GetServiceOf(%q) fails: %v", chosen, who, err)
				continue
			}
			downs = append(downs, c.sendCS(svc, &csreq.ChangeConfiguration{Key: id, Value: "v"}))
			names = append(names, who)
		}
		var fresh *peer
		o4 := c.Go(func() { fresh = rawGood("good-new" + id) })
		var st string
		o5 := c.Go(func() { _, st = c.statusCount(n) })
		check("a request of a WebSocket charge point", o1, start, func() error {
			if m := v1.Answer(0, id); m == nil || m.Type != 3 {
				return fmt.Errorf("answer: %v", m)
			}
			return nil
		})
		check("Send of a WebSocket charge point", s2.Op, start, func() error { return s2.Err })
		check("Send of a SOAP charge point", s3.Op, start, func() error { return s3.Err })
		for i, s := range downs {
			check("Send to "+names[i], s.Op, start, func() error { return s.Err })
		}
		check("the connect of a further charge point", o4, start, func() error {
			if fresh == nil {
				return errors.New("not connected")
			}
			return nil
		})
		check("the status page", o5, start, func() error {
			if !strings.Contains(st, "200 OK") {
				return fmt.Errorf("%.100q", st)
			}
			return nil
		})
		settle(50 * ms)
		if fresh != nil {
			if svc, err := csys.GetServiceOf("good-new"+id, ocpp.V16, ""); err != nil {
				c.Violate("victim-lost", "with offenders %v, a charge point that just connected is not registered: %v", chosen, err)
			} else {
				start = time.Now()
				s := c.sendCS(svc, &csreq.ChangeConfiguration{Key: id, Value: "v"})
				check("Send to a new charge point", s.Op, start, func() error { return s.Err })
			}
			fresh.Close()
			settle(5*lat + 50*ms)
			if _, err := csys.GetServiceOf("good-new"+id, ocpp.V16, ""); err == nil {
				c.Violate("victim-stale", "with offenders %v, a charge point that left is still registered", chosen)
			}
		}
		settle(time.Duration([]int{0, 100, 3000, 70000}[c.R.IntN(4)]) * ms)
	}
	if v2.link() == nil || v2.link().Closed() || v1.IsClosed() {
		c.Violate("victim-disconnected", "with offenders %v, a well-behaved charge point lost its connection", chosen)
	}
	sort.Strings(chosen)
	c.Eval(fmt.Sprint(chosen, lat, blockListeners))
	c.Sample("offenders %v, network latency %v, slowest operation of the others %v", chosen, lat, slow)
}

// ---------------------------------------------------------------- C19

var protoNames = []string{"ocpp1.6", "ocpp1.5", "ocpp1.2", "ocpp2.0", "ocpp2.0.1", "OCPP1.6", "Ocpp1.6", "ocpp1.60", "ocpp1.6j", "ocpp1", "ocpp", "xocpp1.6", "soap", "chat", "mqtt", "ocpp1.6;q=1"}

func c19CS(c *Case) {
	n := c.NewNet()
	nd := c.randNet(n)
	var mu sync.Mutex
	handled := 0
	csys := c.startCS(n, func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		mu.Lock()
		handled++
		mu.Unlock()
		return answerCP(q)
	})
	var offered []string
	var lines []string
	// now and then a long offer: a charge point that lists everything it
	// has ever spoken
	maxLines, maxParts := 4, 4
	switch c.R.IntN(8) {
	case 0:
		maxParts = 40
	case 1:
		maxParts = 400
	case 2:
		maxLines = 60
	}
	for i := c.R.IntN(maxLines); i > 0; i-- {
		var parts []string
		for j := 1 + c.R.IntN(maxParts); j > 0; j-- {
			p := protoNames[c.R.IntN(len(protoNames))]
			switch {
			case maxParts+maxLines > 8:
				// the one that matters may stand anywhere
				if p == "ocpp1.6" {
					p = "ocpp1.5"
				}
				if c.R.IntN(maxParts+maxLines) == 0 {
					p = "ocpp1.6"
				}
			case c.R.IntN(3) == 0:
				p = "ocpp1.6"
			}
			offered = append(offered, p)
			sp := []string{"", " ", "  ", "\t", " \t "}
			parts = append(parts, sp[c.R.IntN(5)]+p+sp[c.R.IntN(5)])
		}
		name := []string{"Sec-WebSocket-Protocol", "sec-websocket-protocol", "SEC-WEBSOCKET-PROTOCOL"}[c.R.IntN(3)]
		lines = append(lines, name+":"+strings.Join(parts, ","))
	}
	req := "GET /cp HTTP/1.1\r\nHost: x\r\n"
	hdrs := append([]string{"Upgrade: " + []string{"websocket", "WebSocket"}[c.R.IntN(2)], "Connection: " + []string{"Upgrade", "upgrade", "keep-alive, Upgrade"}[c.R.IntN(3)],
		"Sec-WebSocket-Version: 13", "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ=="}, lines...)
	if c.R.IntN(3) == 0 {
		hdrs = append(hdrs, "Origin: http://elsewhere")
	}
	if c.R.IntN(4) == 0 {
		hdrs = append(hdrs, "Sec-WebSocket-Extensions: permessage-deflate; client_max_window_bits")
	}
	// the order of the protocol lines among themselves stays
	for i := len(hdrs) - 1; i > 0; i-- {
		j := c.R.IntN(i + 1)
		isP := func(s string) bool { return strings.HasPrefix(strings.ToLower(s), "sec-websocket-protocol") }
		if !isP(hdrs[i]) && !isP(hdrs[j]) {
			hdrs[i], hdrs[j] = hdrs[j], hdrs[i]
		}
	}
	req += strings.Join(hdrs, "\r\n") + "\r\n\r\n"
	conn, err := net.Dial("tcp", n.Host())
	if err != nil {
		c.Violate("dial", "%v", err)
		return
	}
	c.Defer(func() { conn.Close() })
	conn.Write([]byte(req))
	settle(time.Minute)
	link := n.Links()[len(n.Links())-1]
	resp := parseHTTP(link.S2C.Bytes(), true)
	sel := resp.hdr["sec-websocket-protocol"]
	want := contains(offered, "ocpp1.6")
	c.Run.Count("handshakes", 1)
	switch {
	case len(sel) > 1:
		c.Violate("two-selections", "offered %q, selected %q", offered, sel)
	case len(sel) == 1 && !contains(offered, sel[0]):
		c.Violate("selected-not-offered", "offered %q (lines %q), selected %q", offered, lines, sel[0])
	case len(sel) == 1 && sel[0] != "ocpp1.6" && !want:
		c.Violate("selected-other", "offered %q, the central system, which speaks OCPP 1.6, selected %q", offered, sel[0])
	case want && (len(sel) == 0 || sel[0] != "ocpp1.6"):
		c.Violate("not-confirmed", "offered %q (lines %q), selected %q with status %d", offered, lines, sel, resp.status())
	case len(sel) == 1 && sel[0] == "ocpp1.6" && !want:
		c.Violate("confirmed-not-offered", "offered %q, selected %q", offered, sel[0])
	case want && resp.status() != 101:
		c.Violate("refused", "offered %q, answered with status %d", offered, resp.status())
	}
	if want && resp.status() == 101 {
		frame := func(s string) []byte {
			b := []byte{0x81, 0x80 | byte(len(s)), 0, 0, 0, 0}
			return append(b, s...)
		}
		conn.Write(frame(`[2,"q1","Authorize",{"idTag":"t1"}]`))
		settle(10 * time.Second)
		if !strings.Contains(string(link.S2C.Bytes()), `[3,"q1",`) {
			c.Violate("not-working", "after negotiating %q, a request was not answered", sel)
		}
		if _, err := csys.GetServiceOf("cp", ocpp.V16, ""); err != nil {
			c.Violate("not-registered", "after negotiating %q: %v", sel, err)
		}
	}
	sort.Strings(offered)
	c.Eval(fmt.Sprint("cs ", offered, len(lines), nd))
	c.Sample("offered %q -> %q", lines, sel)
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func c19CP(c *Case) {
	n := c.NewNet()
	nd := c.randNet(n)
	ver := []ocpp.Version{ocpp.V16, ocpp.V15}[c.R.IntN(2)]
	want := map[ocpp.Version]string{ocpp.V16: "ocpp1.6", ocpp.V15: "ocpp1.5"}[ver]
	style := c.R.IntN(4)
	sv := c.rawCS(n)
	up := websocket.Upgrader{}
	var mu sync.Mutex
	var offers [][]string
	sv.Upgrade = func(w http.ResponseWriter, r *http.Request) *websocket.Conn {
		mu.Lock()
		offers = append(offers, r.Header.Values("Sec-Websocket-Protocol"))
		mu.Unlock()
		h := http.Header{}
		switch style {
		case 0:
			h.Set("Sec-Websocket-Protocol", want)
		case 1:
			u := up
			u.Subprotocols = []string{"ocpp2.0", want, "ocpp1.2"}
			conn, _ := u.Upgrade(w, r, nil)
			return conn
		case 2:
			h["sec-webSocket-PROTOCOL"] = []string{want}
			h.Set("X-Server", "x")
		case 3:
			h.Set("Sec-Websocket-Protocol", want)
			h.Set("Server", "other")
			h.Set("Set-Cookie", "a=b")
		}
		conn, _ := up.Upgrade(w, r, h)
		return conn
	}
	sv.OnMsg = func(p *peer, m *ocppMsg) {
		if m.Type == 2 {
			p.Reply(m.ID, map[string]any{"currentTime": "2020-01-01T00:00:00Z"})
		}
	}
	p, err := c.startCP(n, cpOpt{ID: "cp", Version: ver, Handler: func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) { return answerCS(q) }})
	if err != nil {
		c.Violate("not-connected", "version %v: a central system that selects %s: %v", ver, want, err)
		return
	}
	rounds := 1 + c.R.IntN(3)
	for i := 0; i < rounds; i++ {
		s := c.sendCP(p, &cpreq.Heartbeat{})
		s.Within(2 * time.Minute)
		if s.Err != nil {
			c.Violate("not-working", "version %v: Send after negotiating %s: %v", ver, want, s.Err)
		}
		if pe := sv.Peer(i, time.Minute); pe != nil {
			pe.Call("x", "ChangeConfiguration", map[string]any{"key": "k", "value": "v"})
			if m := pe.Answer(time.Minute, "x"); m == nil || m.Type != 3 {
				c.Violate("not-working", "version %v: a request after negotiating %s was answered with %v", ver, want, m)
			}
			pe.Close()
		}
		settle(20 * time.Second)
	}
	mu.Lock()
	defer mu.Unlock()
	if len(offers) < rounds {
		c.Violate("handshakes", "%d handshakes for %d connections", len(offers), rounds)
	}
	for _, o := range offers {
		c.Run.Count("handshakes", 1)
		var all []string
		for _, l := range o {
			for _, x := range strings.Split(l, ",") {
				all = append(all, strings.TrimSpace(x))
			}
		}
		if len(all) != 1 || all[0] != want {
			c.Violate("offer", "version %v: offered %q instead of %q", ver, o, want)
		}
	}
	c.Eval(fmt.Sprint("cp ", ver, style, rounds, nd))
}

// ---------------------------------------------------------------- C20

func c20Many(c *Case) {
	// the program has HTTP handlers of its own, on the default mux
	http.DefaultServeMux = http.NewServeMux()
	own := map[string]string{}
	for _, p := range []string{"/", "/status", "/ws/"} {
		if c.R.IntN(2) == 0 {
			own[p] = "own handler of " + p
			http.HandleFunc(p, func(w http.ResponseWriter, r *http.Request) { w.Write([]byte(own[p])) })
		}
	}
	on := c.NewNet()
	oln, err := net.Listen("tcp", on.Addr())
	if err != nil {
		panic(err)
	}
	osrv := &http.Server{}
	go osrv.Serve(oln)
	c.Defer(func() { osrv.Close() })
	before := httpPanics.Load()
	c.Defer(func() { c.checkHTTPPanics(before) })

	type conn struct {
		id   string
		pe   *peer
		real *realCP
		got  []string
	}
	type system struct {
		n        *Net
		csys     cs.CentralSystem
		name     string
		up       bool
		op       *Op
		err      error
		handled  []string
		in, out  []string // listener calls
		conns    []*conn
		wantIn   []string
		wantOut  []string
		wantTags []string
	}
	var mu sync.Mutex
	var all []*system
	ids := []string{"a", "b", "c d", "x/y"}
	var trace []string
	start := func() {
		s := &system{n: c.NewNet(), name: fmt.Sprintf("cs%d", len(all)), csys: cs.New()}
		h := func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
			if a, ok := q.(*cpreq.Authorize); ok {
				mu.Lock()
				s.handled = append(s.handled, m.ChargePointID+"|"+a.IdTag)
				mu.Unlock()
				return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{ParentIdTag: s.name, Status: "Accepted"}}, nil
			}
			return answerCP(q)
		}
		s.csys.SetChargePointConnectionListener(func(id string) { mu.Lock(); s.in = append(s.in, id); mu.Unlock() })
		s.csys.SetChargePointDisconnectionListener(func(id string) { mu.Lock(); s.out = append(s.out, id); mu.Unlock() })
		s.op = c.Go(func() { s.err = s.csys.Run(s.n.Addr(), h) })
		if !waitListening(s.n) {
			c.Violate("cs-not-listening", "central system %d did not start: %v", len(all), s.err)
		}
		s.up = true
		all = append(all, s)
		trace = append(trace, "start")
	}
	pick := func() *system {
		var ups []*system
		for _, s := range all {
			if s.up {
				ups = append(ups, s)
			}
		}
		if len(ups) == 0 {
			return nil
		}
		return ups[c.R.IntN(len(ups))]
	}
	connect := func() {
		s := pick()
		if s == nil {
			return
		}
		x := &conn{id: ids[c.R.IntN(len(ids))]}
		for _, y := range s.conns {
			if y.id == x.id {
				return
			}
		}
		if c.R.IntN(3) == 0 {
			x.real = c.mustCP(s.n, cpOpt{ID: x.id, Handler: func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
				if k, ok := q.(*csreq.ChangeConfiguration); ok {
					mu.Lock()
					x.got = append(x.got, k.Key)
					mu.Unlock()
				}
				return answerCS(q)
			}})
			if x.real == nil {
				return
			}
		} else {
			pe, err := c.rawCP(s.n, x.id)
			if err != nil {
				c.Violate("dial", "%q could not connect to %s: %v", x.id, s.name, err)
				return
			}
			x.pe = pe
			pe.setOnMsg(func(p *peer, m *ocppMsg) {
				if q, bad := decodeCall(m, false); m.Type == 2 && bad == "" {
					if k, ok := q.(*csreq.ChangeConfiguration); ok {
						mu.Lock()
						x.got = append(x.got, k.Key)
						mu.Unlock()
					}
					if a, err := answerCS(q); err == nil {
						p.Reply(m.ID, toJSON(a, schemaOf(m.Action+"Response")))
					}
				}
			})
		}
		s.conns = append(s.conns, x)
		s.wantIn = append(s.wantIn, x.id)
		trace = append(trace, "+"+s.name+x.id)
	}
	tags := 0
	checkAll := func() {
		settle(300 * ms)
		for _, s := range all {
			if !s.up {
				continue
			}
			for _, x := range s.conns {
				tags++
				tag := fmt.Sprintf("u%d", tags)
				s.wantTags = append(s.wantTags, x.id+"|"+tag)
				if x.real != nil {
					q := c.sendCP(x.real, &cpreq.Authorize{IdTag: tag})
					q.Within(time.Minute)
					r, _ := q.Resp.(*cpresp.Authorize)
					if q.Err != nil || r == nil || r.IdTagInfo == nil || r.IdTagInfo.ParentIdTag != s.name {
						c.Violate("wrong-system", "a request of %q to %s: %v %v; history %v", x.id, s.name, show(q.Resp), q.Err, trace)
					}
				} else {
					x.pe.Call(tag, "Authorize", map[string]any{"idTag": tag})
					if m := x.pe.Answer(time.Minute, tag); m == nil || m.Type != 3 || !strings.Contains(string(m.Payload), `"`+s.name+`"`) {
						c.Violate("wrong-system", "a request of %q to %s was answered with %v; history %v", x.id, s.name, m, trace)
					}
				}
			}
			for _, id := range ids {
				var here *conn
				for _, x := range s.conns {
					if x.id == id {
						here = x
					}
				}
				svc, err := s.csys.GetServiceOf(id, ocpp.V16, "")
				if (err == nil) != (here != nil) {
					c.Violate("registry", "%s: GetServiceOf(%q): %v, connected: %v; history %v", s.name, id, err, here != nil, trace)
					continue
				}
				if isSig(s.csys.WaitDisconnect(id)) != (here == nil) || isSig(s.csys.WaitConnect(id)) != (here != nil) {
					c.Violate("wait", "%s: the wait channels of %q do not say that it is connected: %v; history %v", s.name, id, here != nil, trace)
				}
				if err != nil {
					continue
				}
				tags++
				tag := fmt.Sprintf("d%d", tags)
				q := c.sendCS(svc, &csreq.ChangeConfiguration{Key: tag, Value: "v"})
				q.Within(time.Minute)
				if q.Err != nil {
					c.Violate("unreachable", "%s -> %q: %v; history %v", s.name, id, q.Err, trace)
				}
				mu.Lock()
				for _, t := range all {
					for _, x := range t.conns {
						for _, g := range x.got {
							if g == tag && x != here {
								c.Violate("misdelivered", "a request of %s to %q arrived at %q of %s; history %v", s.name, id, x.id, t.name, trace)
							}
						}
					}
				}
				if len(here.got) == 0 || here.got[len(here.got)-1] != tag {
					c.Violate("not-delivered", "a request of %s to %q did not arrive; history %v", s.name, id, trace)
				}
				mu.Unlock()
			}
			if k, st := c.statusCount(s.n); k != len(s.conns) {
				c.Violate("status-page", "%s has %d charge points, its status page says %d: %.300q; history %v", s.name, len(s.conns), k, st, trace)
			}
			mu.Lock()
			cmp := func(what string, got, want []string) {
				g, w := append([]string{}, got...), append([]string{}, want...)
				sort.Strings(g)
				sort.Strings(w)
				if strings.Join(g, "\x00") != strings.Join(w, "\x00") {
					c.Violate(what, "%s: %s: %q instead of %q; history %v", s.name, what, g, w, trace)
				}
			}
			cmp("connection-listener", s.in, s.wantIn)
			cmp("disconnection-listener", s.out, s.wantOut)
			cmp("handler", s.handled, s.wantTags)
			mu.Unlock()
			if s.op.Done() {
				c.Violate("run-ended", "Run of %s ended by itself: %v; history %v", s.name, s.err, trace)
			}
			c.Run.Count("instance_checks", 1)
		}
		// the program's own handlers
		for _, p := range []string{"/", "/status", "/ws/x", "/other"} {
			want := ""
			for _, q := range []string{"/ws/", "/status", "/"} {
				if own[q] != "" && want == "" && (q == p || strings.HasSuffix(q, "/") && strings.HasPrefix(p, q)) {
					want = own[q]
				}
			}
			got := c.httpGet(on, p)
			_, body, _ := strings.Cut(got, "\r\n\r\n")
			if want != "" && body != want || want == "" && !strings.HasPrefix(got, "HTTP/1.1 404") {
				c.Violate("own-handlers", "the program's own HTTP server answers %s with %.200q; history %v", p, got, trace)
			}
			up := c.httpRaw(on, "GET "+p+" HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n", 300*ms)
			if strings.HasPrefix(up, "HTTP/1.1 101") {
				c.Violate("own-handlers", "the program's own HTTP server accepts charge points at %s", p)
			}
		}
	}
	// what the process shares
	mux, transport, dialer := http.DefaultServeMux, http.DefaultTransport, *websocket.DefaultDialer
	globals := func() {
		t, ok := http.DefaultTransport.(*http.Transport)
		switch {
		case http.DefaultServeMux != mux:
			c.Violate("process-wide", "http.DefaultServeMux is another one; history %v", trace)
		case http.DefaultTransport != transport || !ok || t.DisableKeepAlives || t.DisableCompression || t.MaxIdleConns != 100 || t.IdleConnTimeout != 90*time.Second || t.MaxConnsPerHost != 0 || t.ResponseHeaderTimeout != 0 || t.TLSClientConfig != nil && t.TLSClientConfig.InsecureSkipVerify:
			c.Violate("process-wide", "http.DefaultTransport is changed; history %v", trace)
		case http.DefaultClient.Timeout != 0 || http.DefaultClient.Transport != nil || http.DefaultClient.Jar != nil || http.DefaultClient.CheckRedirect != nil:
			c.Violate("process-wide", "http.DefaultClient is changed; history %v", trace)
		case websocket.DefaultDialer.HandshakeTimeout != dialer.HandshakeTimeout || dialer.HandshakeTimeout != 45*time.Second || len(websocket.DefaultDialer.Subprotocols) != 0 || websocket.DefaultDialer.NetDial != nil:
			c.Violate("process-wide", "websocket.DefaultDialer is changed; history %v", trace)
		case log.Flags() != log.LstdFlags || log.Prefix() != "":
			c.Violate("process-wide", "the standard logger is changed; history %v", trace)
		}
	}
	// the program's own client, with a cookie-less plain request to its own server
	ownClient := func() {
		var body string
		var err error
		o := c.Go(func() {
			r, e := http.Get(on.HTTP() + "/status")
			if err = e; e == nil {
				b, _ := io.ReadAll(r.Body)
				r.Body.Close()
				body = string(b)
			}
		})
		want := own["/status"]
		if want == "" {
			want = own["/"]
		}
		if want == "" {
			want = "404 page not found\n"
		}
		if !o.Within(time.Minute) || err != nil || body != want {
			c.Violate("own-client", "the program's own http.Get returned %q, %v; history %v", body, err, trace)
		}
		// its idle connection is still of use after a call of the library
		before := len(on.Links())
		if s := pick(); s != nil && o.Done() && err == nil {
			if svc, e := s.csys.GetServiceOf("nobody", ocpp.V15, c.NewNet().HTTP()); e == nil {
				c.sendCS(svc, &csreq.ClearCache{}).Within(20 * time.Second)
			}
			o := c.Go(func() {
				if r, e := http.Get(on.HTTP() + "/status"); e == nil {
					io.Copy(io.Discard, r.Body)
					r.Body.Close()
				}
			})
			if !o.Within(time.Minute) || len(on.Links()) != before {
				c.Violate("own-client", "the program's own http.Get needed a new connection after a SOAP call of the library; history %v", trace)
			}
		}
		http.DefaultClient.CloseIdleConnections()
	}
	// twin is a second charge point of one identity in this process
	twin := func() {
		s := pick()
		if s == nil {
			return
		}
		for _, x := range s.conns {
			if x.real == nil {
				continue
			}
			l := x.real.link()
			var mine int
			p := c.mustCP(s.n, cpOpt{ID: x.id, Handler: func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
				mu.Lock()
				mine++
				mu.Unlock()
				return answerCS(q)
			}})
			if p == nil {
				return
			}
			trace = append(trace, "twin"+s.name+x.id)
			settle(300 * ms)
			for i, r := range []*realCP{x.real, p, x.real} {
				tags++
				tag := fmt.Sprintf("w%d", tags)
				s.wantTags = append(s.wantTags, x.id+"|"+tag)
				q := c.sendCP(r, &cpreq.Authorize{IdTag: tag})
				q.Within(time.Minute)
				if q.Err != nil || q.Resp == nil {
					c.Violate("twin-send", "two charge points %q of this process are connected to %s; Send number %d of them: %v; history %v", x.id, s.name, i, q.Err, trace)
				}
			}
			if x.real.link() != l || l == nil || l.Closed() {
				c.Violate("twin-connection", "when a second charge point %q of this process connected to %s, the first lost its connection; history %v", x.id, s.name, trace)
			}
			p.Cancel()
			s.wantIn, s.wantOut = append(s.wantIn, x.id), append(s.wantOut, x.id)
			settle(time.Second)
			if x.real.link() != l || l == nil || l.Closed() {
				c.Violate("twin-connection", "when the second charge point %q of this process was cancelled, the first lost its connection; history %v", x.id, trace)
			}
			return
		}
	}
	type soapCP struct {
		p    *realCP
		m    *Net
		got  []string
		id   string
		home *system
	}
	var soaps []*soapCP
	start()
	for i := 0; i < 1+c.R.IntN(2); i++ {
		start()
	}
	steps := 4 + c.R.IntN(12)
	for i := 0; i < steps && !c.Bad(); i++ {
		switch c.R.IntN(13) {
		case 12:
			twin()
		case 0:
			if len(all) < 5 {
				start()
			}
		case 1: // one is stopped from outside
			s := pick()
			if s == nil || len(all) < 2 {
				break
			}
			trace = append(trace, "stop"+s.name)
			s.up = false
			s.n.CloseListener()
			if !s.op.Within(time.Minute) || s.err == nil {
				c.Violate("run-does-not-end", "Run of %s with a dead listener: returned %v, error %v; history %v", s.name, s.op.Done(), s.err, trace)
			}
		case 2: // a port in use
			s := pick()
			if s == nil {
				break
			}
			trace = append(trace, "inuse"+s.name)
			other := cs.New()
			var err error
			o := c.Go(func() {
				err = other.Run(s.n.Addr(), func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
					c.Violate("usurped", "the handler of a central system that could not start was called")
					return nil, errors.New("usurped")
				})
			})
			if !o.Within(time.Minute) || err == nil {
				c.Violate("port-in-use", "Run on a port in use: returned %v, error %v", o.Done(), err)
			}
		case 3, 4, 5, 6:
			connect()
		case 7, 8: // one leaves
			s := pick()
			if s == nil || len(s.conns) == 0 {
				break
			}
			k := c.R.IntN(len(s.conns))
			x := s.conns[k]
			trace = append(trace, "-"+s.name+x.id)
			if x.real != nil {
				x.real.Cancel()
			} else if c.R.IntN(2) == 0 {
				x.pe.Close()
			} else {
				x.pe.link().Reset()
			}
			s.conns = append(s.conns[:k:k], s.conns[k+1:]...)
			s.wantOut = append(s.wantOut, x.id)
		case 9: // a SOAP charge point
			s := pick()
			if s == nil || len(soaps) > 3 {
				break
			}
			x := &soapCP{m: c.NewNet(), id: ids[c.R.IntN(len(ids))], home: s}
			addr := x.m.Addr()
			x.p = c.mustCP(s.n, cpOpt{ID: x.id, SOAP: true, Port: &addr, Handler: func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
				if k, ok := q.(*csreq.ChangeConfiguration); ok {
					mu.Lock()
					x.got = append(x.got, k.Key)
					mu.Unlock()
				}
				return answerCS(q)
			}})
			if x.p == nil || !waitListening(x.m) {
				c.Violate("soap-cp", "a SOAP charge point did not start; history %v", trace)
				break
			}
			soaps = append(soaps, x)
			trace = append(trace, "soap"+s.name+x.id)
		case 10: // a SOAP charge point leaves
			if len(soaps) > 0 {
				k := c.R.IntN(len(soaps))
				soaps[k].p.Cancel()
				settle(time.Second)
				if soaps[k].m.Listening() {
					c.Violate("soap-cp", "a cancelled SOAP charge point is still listening; history %v", trace)
				}
				soaps = append(soaps[:k:k], soaps[k+1:]...)
				trace = append(trace, "-soap")
			}
		case 11: // a charge point whose port is in use
			if len(soaps) > 0 {
				a := soaps[0].m.Addr()
				c.startCP(soaps[0].home.n, cpOpt{ID: "usurper", SOAP: true, Port: &a, Handler: func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
					c.Violate("usurped", "a charge point on a port in use handled a request")
					return nil, errors.New("usurped")
				}})
				trace = append(trace, "usurp")
			}
		}
		for _, x := range soaps {
			if !x.home.up {
				continue
			}
			tags++
			tag := fmt.Sprintf("s%d", tags)
			x.home.wantTags = append(x.home.wantTags, x.id+"|"+tag)
			q := c.sendCP(x.p, &cpreq.Authorize{IdTag: tag})
			q.Within(time.Minute)
			r, _ := q.Resp.(*cpresp.Authorize)
			if q.Err != nil || r == nil || r.IdTagInfo == nil || r.IdTagInfo.ParentIdTag != x.home.name {
				c.Violate("wrong-system", "a SOAP request of %q to %s: %v %v; history %v", x.id, x.home.name, show(q.Resp), q.Err, trace)
			}
			svc, err := x.home.csys.GetServiceOf(x.id, ocpp.V15, x.m.HTTP())
			if err != nil {
				c.Violate("soap-service", "%v", err)
				continue
			}
			d := c.sendCS(svc, &csreq.ChangeConfiguration{Key: tag, Value: "v"})
			d.Within(time.Minute)
			if d.Err != nil || len(x.got) == 0 || x.got[len(x.got)-1] != tag {
				c.Violate("soap-service", "%s -> SOAP %q: %v, handled %v; history %v", x.home.name, x.id, d.Err, x.got, trace)
			}
		}
		checkAll()
		globals()
		if i%4 == 0 {
			ownClient()
		}
	}
	c.Eval(strings.Join(trace, " "))
	c.Sample("%s", strings.Join(trace, " "))
}

// ---------------------------------------------------------------- C23

func c23Server(c *Case) {
	n := c.NewNet()
	nd := c.randNet(n)
	var mu sync.Mutex
	in, out := map[string]int{}, map[string]int{}
	var odd []string
	csys := c.startCS(n, func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		if m.ChargePointID != "good" {
			mu.Lock()
			odd = append(odd, m.ChargePointID)
			mu.Unlock()
		}
		return answerCP(q)
	})
	csys.SetChargePointConnectionListener(func(id string) { mu.Lock(); in[id]++; mu.Unlock() })
	csys.SetChargePointDisconnectionListener(func(id string) { mu.Lock(); out[id]++; mu.Unlock() })
	good, err := c.rawCP(n, "good")
	if err != nil {
		c.Violate("dial", "%v", err)
		return
	}
	settle(time.Second)
	good.setOnMsg(func(p *peer, m *ocppMsg) {
		if q, bad := decodeCall(m, false); m.Type == 2 && bad == "" {
			if a, err := answerCS(q); err == nil {
				p.Reply(m.ID, toJSON(a, schemaOf(m.Action+"Response")))
			}
		}
	})
	H := func(start string, hs ...string) string {
		return start + "\r\nHost: x\r\n" + strings.Join(hs, "\r\n") + "\r\n\r\n"
	}
	up, conn, ver, key := "Upgrade: websocket", "Connection: Upgrade", "Sec-WebSocket-Version: 13", "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ=="
	call := string([]byte{0x81, 0xa3, 0, 0, 0, 0}) + `[2,"q1","Authorize",{"idTag":"t1"}]`
	kinds := map[string]func(id string) string{
		"get":     func(id string) string { return H("GET /" + id + " HTTP/1.1") },
		"head":    func(id string) string { return H("HEAD /" + id + " HTTP/1.1") },
		"options": func(id string) string { return H("OPTIONS * HTTP/1.1") },
		"put":     func(id string) string { return H("PUT /"+id+" HTTP/1.1", "Content-Length: 3") + "abc" },
		"delete":  func(id string) string { return H("DELETE /" + id + " HTTP/1.1") },
		"connect": func(id string) string { return H("CONNECT x:80 HTTP/1.1") },
		"post-json": func(id string) string {
			return H("POST /"+id+" HTTP/1.1", "Content-Length: 34") + `[2,"q","Authorize",{"idTag":"t1"}]`
		},
		"no-key":    func(id string) string { return H("GET /"+id+" HTTP/1.1", up, conn, ver) + call },
		"empty-key": func(id string) string { return H("GET /"+id+" HTTP/1.1", up, conn, ver, "Sec-WebSocket-Key:") + call },
		"version-8": func(id string) string {
			return H("GET /"+id+" HTTP/1.1", up, conn, key, "Sec-WebSocket-Version: 8") + call
		},
		"no-version":    func(id string) string { return H("GET /"+id+" HTTP/1.1", up, conn, key) + call },
		"no-upgrade":    func(id string) string { return H("GET /"+id+" HTTP/1.1", conn, ver, key) + call },
		"no-connection": func(id string) string { return H("GET /"+id+" HTTP/1.1", up, ver, key) + call },
		"other-upgrade": func(id string) string { return H("GET /"+id+" HTTP/1.1", "Upgrade: h2c", conn, ver, key) + call },
		"post-upgrade":  func(id string) string { return H("POST /"+id+" HTTP/1.1", up, conn, ver, key) + call },
		"put-upgrade":   func(id string) string { return H("PUT /"+id+" HTTP/1.1", up, conn, ver, key) + call },
		"head-upgrade":  func(id string) string { return H("HEAD /"+id+" HTTP/1.1", up, conn, ver, key) },
		"bad-uri":       func(id string) string { return H("GET /%zz"+id+" HTTP/1.1", up, conn, ver, key) + call },
		"no-host": func(id string) string {
			return "GET /" + id + " HTTP/1.1\r\n" + up + "\r\n" + conn + "\r\n" + ver + "\r\n" + key + "\r\n\r\n" + call
		},
		"bad-header": func(id string) string { return H("GET /"+id+" HTTP/1.1", up, conn, ver, key, "no colon here") + call },
		"garbage":    func(id string) string { return "\x16\x03\x01\x02\x00\x01\x00" + id + "\r\n\r\n" },
		"frames":     func(id string) string { return call + call },
		"early-data": func(id string) string { return H("GET /"+id+" HTTP/1.1", up, conn, ver, key) + call }, // pipelined before the answer
		"huge-header": func(id string) string {
			return H("GET /"+id+" HTTP/1.1", up, conn, ver, key, "X: "+strings.Repeat("a", 2<<20))
		},
		"aborted": func(id string) string {
			return H("GET /"+id+" HTTP/1.1", up, conn, ver, key, "Sec-WebSocket-Protocol: ocpp1.6")
		},
		"aborted-silent": func(id string) string {
			return H("GET /"+id+" HTTP/1.1", up, conn, ver, key, "Sec-WebSocket-Protocol: ocpp1.6")
		},
		"body-silent": func(id string) string { // the body never comes
			return H([]string{"GET", "POST", "PUT"}[c.R.IntN(3)]+" /"+id+" HTTP/1.1", up, conn, ver, "Content-Length: 100") + "abc"
		},
		"unread": func(id string) string { // the answer is not taken
			return H("GET / HTTP/1.1", "Accept: */*") + H("GET /"+id+" HTTP/1.1", up, conn, ver, key, "Sec-WebSocket-Protocol: ocpp1.6")
		},
		"abandoned": func(id string) string {
			return H("GET /"+id+" HTTP/1.1", up, conn, ver, key, "Sec-WebSocket-Protocol: ocpp1.6")
		},
	}
	var names []string
	for k := range kinds {
		names = append(names, k)
	}
	sort.Strings(names)
	goneGood := csys.WaitDisconnect("good")
	var trace []string
	steps := 1 + c.R.IntN(8)
	for i := 0; i < steps && !c.Bad(); i++ {
		mode := names[(c.Idx+i*7+c.R.IntN(3))%len(names)]
		id := fmt.Sprintf("bad%d", i)
		if c.R.IntN(5) == 0 && !strings.HasPrefix(mode, "early") && !strings.HasPrefix(mode, "abandoned") && !strings.HasPrefix(mode, "bad-header") {
			id = "good"
		}
		text := kinds[mode](id)
		may := mode == "early-data" // gorilla refuses it, but the handshake is complete
		mu.Lock()
		i0, o0 := in[id], out[id]
		mu.Unlock()
		before := len(n.Links())
		var wc <-chan struct{}
		if id != "good" && c.R.IntN(3) > 0 {
			wc = csys.WaitConnect(id)
		}
		switch mode {
		case "aborted", "aborted-silent", "body-silent":
			cut := c.R.IntN(len(text))
			if mode == "body-silent" {
				cut = len(text)
			}
			text = text[:cut]
			conn, err := net.Dial("tcp", n.Host())
			if err != nil {
				c.Violate("dial", "%v", err)
				return
			}
			conn.Write([]byte(text))
			if mode == "aborted" {
				settle(time.Duration(c.R.IntN(300)) * ms)
				if c.R.IntN(2) == 0 {
					conn.Close()
				} else {
					n.Links()[len(n.Links())-1].Reset()
				}
			} else {
				c.Defer(func() { conn.Close() })
			}
			mode = fmt.Sprintf("%s@%d", mode, cut)
		case "unread":
			conn, err := net.Dial("tcp", n.Host())
			if err != nil {
				c.Violate("dial", "%v", err)
				return
			}
			room := 1 + c.R.IntN(100) // the answer to the first request fills it
			conn.(*simConn).link.S2C.SetCapacity(room)
			conn.Write([]byte(text))
			if c.R.IntN(3) == 0 {
				settle(time.Second)
				conn.Close()
			} else {
				c.Defer(func() { conn.Close() })
			}
			mode = fmt.Sprintf("%s@%d", mode, room)
		case "abandoned": // the answer cannot be delivered any more
			conn, err := net.Dial("tcp", n.Host())
			if err != nil {
				c.Violate("dial", "%v", err)
				return
			}
			l := n.Links()[len(n.Links())-1]
			may = true
			switch c.R.IntN(3) {
			case 0:
				conn.Write([]byte(text))
				conn.Close()
			case 1:
				l.S2C.CutAfter(c.R.IntN(120))
				conn.Write([]byte(text))
			case 2:
				conn.Write([]byte(text))
				l.Reset()
			}
		default:
			got := c.httpRaw(n, text, 2*time.Second)
			if strings.HasPrefix(got, "HTTP/1.1 101") && !may {
				c.Violate("upgraded:"+mode, "a malformed upgrade request was accepted: %.300q -> %.200q", text, got)
			}
		}
		trace = append(trace, mode+":"+id)
		settle(2 * time.Second)
		if len(n.Links()) == before {
			c.Inconclusive("no connection was made")
		}
		mu.Lock()
		di, do := in[id]-i0, out[id]-o0
		bad := odd
		odd = nil
		mu.Unlock()
		if !may && (di != 0 || do != 0) {
			c.Violate("listener:"+mode, "after %s, which is no completed handshake, the listeners were called %d and %d times", mode, di, do)
		}
		if may && di != do {
			c.Violate("listener-unbalanced:"+mode, "after %s, the connection listener was called %d times, the disconnection listener %d times", mode, di, do)
		}
		if len(bad) > 0 && !may {
			c.Violate("handled:"+mode, "after %s, the handler was called for %q", mode, bad)
		}
		if id != "good" {
			if _, err := csys.GetServiceOf(id, ocpp.V16, ""); err == nil {
				c.Violate("registered:"+mode, "after %s, GetServiceOf(%q) succeeds", mode, id)
			}
			if wc != nil && !may && isSig(wc) {
				c.Violate("waitconnect:"+mode, "after %s, which is no completed handshake, WaitConnect(%q) is signalled", mode, id)
			}
			if isSig(csys.WaitConnect(id)) || !isSig(csys.WaitDisconnect(id)) {
				c.Violate("wait:"+mode, "after %s, the wait channels of %q say that it is connected", mode, id)
			}
		}
		if k, s := c.statusCount(n); k != 1 {
			c.Violate("status-page:"+mode, "after %s, the status page says %d: %.200q", mode, k, s)
		}
		// the connected one is undisturbed, and others can connect
		q := fmt.Sprintf("g%d", i)
		good.Call(q, "Authorize", map[string]any{"idTag": "t"})
		if m := good.Answer(time.Minute, q); m == nil || m.Type != 3 {
			c.Violate("disturbed", "after %v, a request of the connected charge point was answered with %v", trace, m)
		}
		if isSig(goneGood) {
			c.Violate("disturbed", "after %v, WaitDisconnect of the connected charge point is signalled", trace)
		}
		if svc, err := csys.GetServiceOf("good", ocpp.V16, ""); err != nil {
			c.Violate("disturbed", "after %v: %v", trace, err)
		} else if s := c.sendCS(svc, &csreq.GetDiagnostics{Location: "l"}); !s.Within(2*time.Minute) || s.Err != nil {
			c.Violate("disturbed", "after %v, a request to the connected charge point: %v", trace, s.Err)
		}
		pe, err := c.rawCP(n, "newcomer")
		if err != nil {
			c.Violate("dead", "after %v, a charge point cannot connect: %v", trace, err)
			return
		}
		settle(time.Second)
		if _, err := csys.GetServiceOf("newcomer", ocpp.V16, ""); err != nil {
			c.Violate("dead", "after %v, a charge point that connected is not registered", trace)
		}
		pe.Close()
		settle(time.Second)
		c.Run.Count("bad_handshakes", 1)
	}
	c.Eval(strings.Join(trace, " ") + nd)
	c.Sample("%s", strings.Join(trace, " "))
}

func c23Client(c *Case) {
	n := c.NewNet()
	nd := c.randNet(n)
	modes := []string{"refused", "no-listener", "accept-close", "accept-reset", "404", "500", "200", "302", "401", "bad-accept", "no-accept", "no-upgrade-header", "garbage", "hang-handshake", "hang-dial", "cut", "bad-url", "empty-url", "http-url", "no-host-url", "cancelled", "cancel-during", "soap-no-port", "drip"}
	mode := modes[c.Idx%len(modes)]
	url := n.WS()
	serve := func(f func(conn net.Conn, l *Link, req string)) {
		ln, err := net.Listen("tcp", n.Addr())
		if err != nil {
			panic(err)
		}
		c.Defer(func() { ln.Close() })
		go func() {
			for {
				conn, err := ln.Accept()
				if err != nil {
					return
				}
				go func() {
					req := ""
					b := make([]byte, 4096)
					for !strings.Contains(req, "\r\n\r\n") {
						k, err := conn.Read(b)
						if err != nil {
							conn.Close()
							return
						}
						req += string(b[:k])
					}
					f(conn, conn.(*simConn).link, req)
				}()
			}
		}()
	}
	write := func(s string) { serve(func(conn net.Conn, l *Link, req string) { conn.Write([]byte(s)) }) }
	ok := func(req string) string {
		return "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + wsAccept(req) + "\r\nSec-WebSocket-Protocol: ocpp1.6\r\n\r\n"
	}
	opt := cpOpt{ID: "cp", Handler: func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		c.Violate("handled", "a charge point that could not start handled a request")
		return answerCS(q)
	}}
	limit := 70 * time.Second
	cancelAfter := time.Duration(-1)
	switch mode {
	case "refused":
		n.Refuse(true)
	case "no-listener":
	case "accept-close":
		serve(func(conn net.Conn, l *Link, req string) { conn.Close() })
	case "accept-reset":
		serve(func(conn net.Conn, l *Link, req string) { l.Reset() })
	case "404", "500", "200", "302", "401":
		write("HTTP/1.1 " + mode + " Whatever\r\nLocation: /elsewhere\r\nContent-Length: 2\r\n\r\nno")
	case "bad-accept":
		write("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: AAAAAAAAAAAAAAAAAAAAAAAAAAA=\r\n\r\n")
	case "no-accept":
		write("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n\r\n")
	case "no-upgrade-header":
		serve(func(conn net.Conn, l *Link, req string) {
			conn.Write([]byte(strings.Replace(ok(req), "Upgrade: websocket\r\n", "", 1)))
		})
	case "garbage":
		write("\x00\x01\x02SSH-2.0-OpenSSH\r\n\r\n")
	case "hang-handshake":
		serve(func(conn net.Conn, l *Link, req string) {})
	case "drip":
		serve(func(conn net.Conn, l *Link, req string) {
			for _, b := range []byte(ok(req)) {
				if _, err := conn.Write([]byte{b}); err != nil {
					return
				}
				time.Sleep(time.Second)
			}
		})
	case "hang-dial":
		n.HangDial(true)
	case "cut":
		cut := c.R.IntN(140)
		serve(func(conn net.Conn, l *Link, req string) {
			s := ok(req)
			conn.Write([]byte(s[:min(cut, len(s)-1)]))
			settle(time.Duration(c.R.IntN(2000)) * ms)
			conn.Close()
		})
	case "bad-url":
		url = []string{"ws://[::1", "ws://%zz/", ":", "://x", "ws://sim.test:99999999/x", "\x00"}[c.R.IntN(6)]
	case "empty-url":
		url = " "
	case "http-url":
		url = n.HTTP()
	case "no-host-url":
		url = "ws:///x"
	case "cancelled":
		c.rawCS(n)
		cancelAfter = 0
	case "cancel-during":
		if c.R.IntN(2) == 0 {
			n.HangDial(true)
		} else {
			serve(func(conn net.Conn, l *Link, req string) {})
		}
		cancelAfter = time.Duration(1+c.R.IntN(30000)) * ms
		limit = cancelAfter + 5*time.Second
	case "soap-no-port":
		opt.SOAP = true
	}
	base := len(subjectHere())
	opt.URL = url
	p, err, took := c.newCP(n, opt, cancelAfter)
	if took < 0 {
		c.Violate("hang:"+mode, "the constructor did not return within 10 minutes of a first dial that failed (%s)", mode)
		return
	}
	if err == nil {
		c.Violate("no-error:"+mode, "the constructor returned no error although the first dial failed (%s): %v", mode, p)
		return
	}
	if took > limit {
		c.Violate("slow:"+mode, "the constructor returned after %v (%s)", took, mode)
	}
	dials := len(n.Dials())
	if mode != "cancelled" && !strings.HasSuffix(mode, "url") && mode != "soap-no-port" && dials == 0 {
		c.Inconclusive("%s: never dialled", mode)
	}
	settle(10 * time.Second)
	for _, l := range n.Links() {
		if !l.ClientClosed() && !l.ServerClosed() {
			c.Violate("connection-left:"+mode, "after a failed constructor (%s) its connection is still open", mode)
		}
	}
	n.HangDial(false)
	n.Refuse(false)
	settle(10 * time.Minute)
	if k := len(n.Dials()); k != dials {
		c.Violate("dials-on:"+mode, "after a failed constructor (%s), %d more dials were made", mode, k-dials)
	}
	if g := subjectHere(); len(g) != base {
		c.Violate("left-running:"+mode, "after a failed constructor (%s), %d goroutines remain:\n%s", mode, len(g)-base, g[len(g)-1])
	}
	c.Run.Count("failed_constructors", 1)
	c.Eval(fmt.Sprint(mode, nd, len(err.Error())))
}

// wsAccept is the Sec-WebSocket-Accept that a request asks for.
func wsAccept(req string) string {
	for _, x := range strings.Split(req, "\r\n") {
		if k, v, _ := strings.Cut(x, ":"); strings.EqualFold(k, "Sec-WebSocket-Key") {
			h := sha1.Sum([]byte(strings.TrimSpace(v) + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
			return base64.StdEncoding.EncodeToString(h[:])
		}
	}
	return ""
}
