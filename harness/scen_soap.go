package verifharness

// C16, C17, C18 and the SOAP part of C21.

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	ocpp "github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

func init() {
	register("C16", func(r *Run) {
		r.Cases("pair", r.N(900, 30000), c16Pair)
		r.Cases("each", r.N(1500, 40000), c16Each)
		r.Cases("long", r.N(6, 150), c16Each)
		r.Cases("huge", 4, c16Huge)
	})
	register("C17", func(r *Run) {
		r.Cases("client", r.N(900, 20000), c17Client)
		r.Cases("server", r.N(700, 16000), c17Server)
		r.Cases("pair", r.N(300, 6000), c17Pair)
	})
	register("C18", func(r *Run) {
		r.Cases("emit", r.N(1500, 40000), c18Emit)
		r.Cases("ids", r.N(40, 800), c18IDs)
		r.Cases("inbound", r.N(1500, 40000), c18Inbound)
	})
}

func ops15(fromCP bool) (out []*opDef) {
	for _, o := range ops {
		if o.V15 && o.FromCP == fromCP {
			out = append(out, o)
		}
	}
	return
}

func (g *gen) req15(o *opDef) messages.Request {
	m := g.req(o)
	strip15(reflect.ValueOf(m))
	return m
}

func (g *gen) resp15(o *opDef) messages.Response {
	m := g.resp(o)
	strip15(reflect.ValueOf(m))
	return m
}

// soapRig is a real central system and a real SOAP charge point.
type soapRig struct {
	c *Case
	// where they are found on it
	csPath, cpPath string
	n, m           *Net // the central system's and the charge point's port
	id             string
	csys           cs.CentralSystem
	cp             *realCP
	svc            csService
}

var urlPaths = []string{"/", "/", "/", "", "/Ocpp/CentralSystemService", "/ocpp?station=7&x=%20y", "/?a=b", "/a%20b/c%2Fd", "//x/", "/svc.asmx;v=1"}

func (c *Case) newSOAPRig(id string, csh csHandler, cph cpHandler) *soapRig {
	g := &soapRig{c: c, n: c.NewNet(), m: c.NewNet(), id: id, csPath: urlPaths[c.R.IntN(len(urlPaths))], cpPath: urlPaths[c.R.IntN(len(urlPaths))]}
	g.csys = c.startCS(g.n, csh)
	addr := g.m.Addr()
	g.cp = c.mustCP(g.n, cpOpt{ID: id, SOAP: true, Port: &addr, URL: g.n.HTTP() + g.csPath, Handler: cph})
	if g.cp == nil {
		return nil
	}
	if !waitListening(g.m) {
		c.Violate("cp-not-listening", "the SOAP charge point did not start listening")
		return nil
	}
	svc, err := g.csys.GetServiceOf(id, ocpp.V15, g.m.HTTP()+g.cpPath)
	if err != nil {
		c.Violate("getserviceof", "GetServiceOf of a SOAP charge point: %v", err)
		return nil
	}
	g.svc = svc
	return g
}

func waitListening(n *Net) bool {
	for i := 0; i < 1000 && !n.Listening(); i++ {
		time.Sleep(ms)
	}
	return n.Listening()
}

func (g *soapRig) send(q messages.Request) *sent {
	if r, ok := q.(cpreq.ChargePointRequest); ok {
		return g.c.sendCP(g.cp, r)
	}
	return g.c.sendCS(g.svc, q.(csreq.CentralSystemRequest))
}

// ---------------------------------------------------------------- C16

type soapRec struct {
	req  messages.Request
	copy messages.Request // made when it arrived
	resp messages.Response
	used bool
}

// recorder answers every request with a generated response and keeps both.
type recorder struct {
	mu   sync.Mutex
	g    *gen
	recs []*soapRec
	wait func() time.Duration
	// the handler uses its responses again
	reuse bool
	last  map[*opDef]messages.Response
}

func (x *recorder) handle(q messages.Request) (messages.Response, error) {
	o := opOfReq(q)
	if o == nil {
		return nil, errors.New("harness: unknown request")
	}
	x.mu.Lock()
	r := x.g.resp15(o)
	x.recs = append(x.recs, &soapRec{req: q, copy: clone(q), resp: r})
	own := clone(r)
	if x.reuse {
		if own0 := x.last[o]; own0 != nil {
			overwrite(reflect.ValueOf(own0).Elem(), reflect.ValueOf(r).Elem())
			own = own0
		} else {
			if x.last == nil {
				x.last = map[*opDef]messages.Response{}
			}
			x.last[o] = own
		}
	}
	var d time.Duration
	if x.wait != nil {
		d = x.wait()
	}
	x.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
	return own, nil
}

func (x *recorder) forget() { x.mu.Lock(); x.recs = nil; x.mu.Unlock() }

func randGen(r *rand.Rand) *gen {
	return &gen{R: r, XML: true, Mode: genMode(r.IntN(3)), Valid: r.IntN(4) == 0, Zeros: r.IntN(2) == 0, Edge: r.IntN(3) == 0, EmptyLists: r.IntN(3) == 0, MaxList: 1 + r.IntN(6)}
}

// matchSOAP finds the handler call a Send belongs to.
func (c *Case) matchSOAP(q messages.Request, s *sent, recs []*soapRec) {
	o := opOfReq(q)
	if !s.Done() {
		c.Violate("hang:"+o.Name(), "Send did not return")
		return
	}
	if s.Err != nil {
		c.Violate("error:"+o.Name(), "Send of %s %s failed on a working network: %v", o.Name(), show(q), s.Err)
		return
	}
	best := ""
	same := 0
	for _, r := range recs {
		if r.used || reflect.TypeOf(r.req) != reflect.TypeOf(q) {
			continue
		}
		same++
		d := diff(q, r.copy)
		if d == "" {
			d = diff(r.copy, r.req) // it does not change later
		}
		if d != "" {
			if best == "" {
				best = "request" + d
			}
			continue
		}
		d = diff(r.resp, s.Resp)
		if d == "" {
			r.used = true
			return
		}
		best = "response" + d
	}
	if same == 0 {
		c.Violate("not-handled:"+o.Name(), "%s %s never reached the handler as this kind of request", o.Name(), show(q))
		return
	}
	c.Violate("altered:"+o.Name()+":"+diffKey(best), "%s: %s (sent vs received; sent %s, Send returned %s)", o.Name(), best, show(q), show(s.Resp))
}

func c16Each(c *Case) {
	x := &recorder{g: randGen(rngFor(c.Seed, c.Kind, c.Idx, "resp"))}
	g := c.newSOAPRig("cp", asCS(x.handle), asCP(x.handle))
	if g == nil {
		return
	}
	x.reuse = true
	reqs := map[*opDef]messages.Request{}
	for i := 0; i < 6; i++ {
		all := append(ops15(true), ops15(false)...)
		o := all[(c.Idx*4+i%4)%len(all)]
		gg := randGen(c.R)
		if c.Kind == "long" {
			gg.Long, gg.Valid = 2, false
			x.g.Long, x.g.Valid = 2, false
		}
		q := gg.req15(o)
		x.forget()
		own := clone(q)
		if own0 := reqs[o]; own0 != nil {
			overwrite(reflect.ValueOf(own0).Elem(), reflect.ValueOf(q).Elem())
			own = own0
		}
		reqs[o] = own
		s := g.send(own)
		s.Within(2 * time.Minute)
		c.matchSOAP(q, s, x.recs)
		if d := diff(q, own); d != "" {
			c.Violate("changed:"+o.Name(), "after Send(%s) the program's own request is %s: %s", show(q), show(own), d)
		}
		if len(x.recs) != 1 {
			c.Violate("handled-times:"+o.Name(), "%s was handled %d times", o.Name(), len(x.recs))
		}
		c.Eval("each " + o.Name() + setFields(q) + setFields(s.Resp))
		c.Count("messages_compared", 2)
		c.Sample("%s %s -> %s", o.Name(), show(q), show(s.Resp))
	}
}

// c16Huge: messages of many megabytes, as a firmware image in a DataTransfer makes them.
func c16Huge(c *Case) {
	size := []int{5 << 20, 11 << 20, 17 << 20, 34 << 20}[c.Idx%4]
	text := strings.Repeat("x", size/2) + strings.Repeat("\u00e9", size/4) + "end"
	echo := func(q messages.Request) (messages.Response, error) {
		switch q := q.(type) {
		case *cpreq.DataTransfer:
			return &cpresp.DataTransfer{Data: q.Data, Status: "Accepted"}, nil
		case *csreq.DataTransfer:
			return &csresp.DataTransfer{Data: q.Data, Status: "Accepted"}, nil
		}
		return nil, errors.New("unexpected")
	}
	g := c.newSOAPRig("cp", asCS(echo), asCP(echo))
	if g == nil {
		return
	}
	for _, q := range []messages.Request{
		&cpreq.DataTransfer{VendorId: "v", Data: text},
		&csreq.DataTransfer{VendorId: "v", Data: text},
	} {
		s := g.send(q)
		if !s.Within(5 * time.Minute) {
			c.Violate("huge-hangs", "Send of %d bytes did not return", len(text))
			return
		}
		if s.Err != nil {
			c.Violate("huge-error", "Send of %d bytes: %.300s", len(text), s.Err)
			continue
		}
		got := ""
		switch r := s.Resp.(type) {
		case *cpresp.DataTransfer:
			got = r.Data
		case *csresp.DataTransfer:
			got = r.Data
		}
		if got != text {
			c.Violate("huge-altered", "%d bytes came back as %d other bytes", len(text), len(got))
		}
		c.Count("messages_compared", 2)
	}
	c.Eval(fmt.Sprint("huge ", size))
}

// setFields names the fields that are set.
func setFields(m any) string {
	v := reflect.ValueOf(m)
	if !v.IsValid() || v.Kind() != reflect.Ptr || v.IsNil() {
		return "-"
	}
	var b strings.Builder
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct || v.Type() == timeType {
			return
		}
		for _, f := range fieldsOf(v.Type()) {
			fv := v.FieldByIndex(f.Index)
			if isZero(fv) {
				b.WriteString("0")
				continue
			}
			b.WriteString("1")
			if fv.Kind() == reflect.Ptr {
				walk(fv)
			}
			if fv.Kind() == reflect.Slice {
				fmt.Fprintf(&b, "[%d", min(fv.Len(), 2))
				walk(fv.Index(0))
				b.WriteString("]")
			}
		}
	}
	walk(v)
	return "(" + b.String() + ")"
}

func c16Pair(c *Case) {
	n := c.NewNet()
	nd := c.randNet(n)
	wr := rngFor(c.Seed, c.Kind, c.Idx, "wait")
	wait := func() time.Duration { return time.Duration(wr.IntN(300)) * ms }
	up := &recorder{g: randGen(rngFor(c.Seed, c.Kind, c.Idx, "up")), wait: wait}
	csys := c.startCS(n, asCS(up.handle))
	var downs []*recorder
	type call struct {
		q messages.Request
		s *sent
	}
	var ups []call
	downCalls := map[int][]call{}
	k := 1 + c.R.IntN(3)
	total := 0
	var cps []*realCP
	var svcs []csService
	for i := 0; i < k; i++ {
		m := c.NewNet()
		nd += c.randNet(m)
		wi := rngFor(c.Seed, c.Kind, c.Idx, "wait", i)
		d := &recorder{g: randGen(rngFor(c.Seed, c.Kind, c.Idx, "down", i)), wait: func() time.Duration { return time.Duration(wi.IntN(300)) * ms }}
		downs = append(downs, d)
		addr := m.Addr()
		id := fmt.Sprintf("cp%d", i)
		p := c.mustCP(n, cpOpt{ID: id, SOAP: true, Port: &addr, Handler: asCP(d.handle)})
		if p == nil || !waitListening(m) {
			return
		}
		svc, err := csys.GetServiceOf(id, ocpp.V15, m.HTTP())
		if err != nil {
			c.Violate("getserviceof", "%v", err)
			return
		}
		cps, svcs = append(cps, p), append(svcs, svc)
	}
	for i := 0; i < k; i++ {
		for j := 0; j < 1+c.R.IntN(8); j++ {
			gg := randGen(c.R)
			if c.R.IntN(2) == 0 {
				o := ops15(true)[c.R.IntN(len(ops15(true)))]
				q := gg.req15(o)
				ups = append(ups, call{q, c.sendCP(cps[i], q.(cpreq.ChargePointRequest))})
			} else {
				o := ops15(false)[c.R.IntN(len(ops15(false)))]
				q := gg.req15(o)
				downCalls[i] = append(downCalls[i], call{q, c.sendCS(svcs[i], q.(csreq.CentralSystemRequest))})
			}
			total++
			if c.R.IntN(3) == 0 {
				time.Sleep(time.Duration(c.R.IntN(100)) * ms)
			}
		}
	}
	settle(3 * time.Minute)
	state := fmt.Sprint("pair", nd, k)
	match := func(calls []call, x *recorder) {
		for _, q := range calls {
			c.matchSOAP(q.q, q.s, x.recs)
			state += opOfReq(q.q).Name()
		}
		if len(calls) != len(x.recs) {
			c.Violate("handled-times", "%d requests were sent, %d handled", len(calls), len(x.recs))
		}
	}
	match(ups, up)
	for i := range downs {
		match(downCalls[i], downs[i])
	}
	c.Count("messages_compared", int64(2*total))
	c.Eval(state)
}

// ---------------------------------------------------------------- HTTP on the wire

type httpMsg struct {
	start string
	hdr   map[string][]string
	body  []byte
	err   string
}

func (m *httpMsg) get(k string) string {
	if v := m.hdr[strings.ToLower(k)]; len(v) > 0 {
		return v[0]
	}
	return ""
}

func (m *httpMsg) status() int {
	f := strings.Fields(m.start)
	if len(f) < 2 {
		return 0
	}
	k, _ := strconv.Atoi(f[1])
	return k
}

// parseHTTP decodes one HTTP message that is all a direction carried.
func parseHTTP(b []byte, isResp bool) *httpMsg {
	m := &httpMsg{hdr: map[string][]string{}}
again:
	i := bytes.Index(b, []byte("\r\n\r\n"))
	if i < 0 {
		m.err = "no end of the head"
		return m
	}
	lines := strings.Split(string(b[:i]), "\r\n")
	rest := b[i+4:]
	m.start = lines[0]
	if isResp && strings.HasPrefix(m.start, "HTTP/1.1 1") && m.status() != 101 {
		b = rest
		goto again
	}
	for _, l := range lines[1:] {
		k, v, ok := strings.Cut(l, ":")
		if !ok {
			m.err = "header line " + l
			return m
		}
		k = strings.ToLower(k)
		m.hdr[k] = append(m.hdr[k], strings.TrimSpace(v))
	}
	for _, h := range []string{"content-length", "content-type", "transfer-encoding", "content-encoding", "host"} {
		if len(m.hdr[h]) > 1 {
			m.err = h + " appears twice"
			return m
		}
	}
	cl, te := m.get("content-length"), m.get("transfer-encoding")
	switch {
	case cl != "" && te != "":
		m.err = "both Content-Length and Transfer-Encoding"
	case te == "chunked":
		for {
			j := bytes.Index(rest, []byte("\r\n"))
			if j < 0 {
				m.err = "unfinished chunked body"
				return m
			}
			k, err := strconv.ParseInt(strings.TrimSpace(string(rest[:j])), 16, 32)
			rest = rest[j+2:]
			if err != nil || int(k)+2 > len(rest) {
				m.err = "bad chunk"
				return m
			}
			m.body = append(m.body, rest[:k]...)
			rest = rest[k+2:]
			if k == 0 {
				break
			}
		}
		if len(rest) > 0 {
			m.err = fmt.Sprintf("%d bytes after the body", len(rest))
		}
	case cl != "":
		k, err := strconv.Atoi(cl)
		if err != nil {
			m.err = "Content-Length " + cl
			return m
		}
		if k != len(rest) {
			m.err = fmt.Sprintf("Content-Length %d, but %d bytes of body", k, len(rest))
		}
		m.body = rest
	case isResp:
		m.body = rest
	default:
		if len(rest) > 0 {
			m.err = "body without Content-Length"
		}
	}
	return m
}

// ---------------------------------------------------------------- C18

// checkEnvelope checks a SOAP message on the wire and returns its body element.
func (c *Case) checkEnvelope(what string, m *httpMsg) (root, body *xnode) {
	bad := func(key, format string, a ...any) {
		c.Violate("wire:"+key, "%s: %s\n%s\n%.1500s", what, fmt.Sprintf(format, a...), m.start, m.body)
	}
	if m.err != "" {
		bad("http", "%s", m.err)
		return nil, nil
	}
	ct := strings.ToLower(m.get("Content-Type"))
	mt, params, _ := strings.Cut(ct, ";")
	if strings.TrimSpace(mt) != "application/soap+xml" {
		bad("content-type", "Content-Type %q of a SOAP 1.2 message", ct)
	}
	if strings.Contains(params, "charset") {
		if v := strings.Trim(strings.TrimSpace(strings.SplitN(params, "charset=", 2)[1]), `"`); v != "utf-8" {
			bad("charset", "charset %q", v)
		}
	}
	if e := m.get("Content-Encoding"); e != "" && e != "identity" {
		bad("content-encoding", "Content-Encoding %q, but the body is not encoded", e)
	}
	if !utf8.Valid(m.body) {
		bad("utf8", "the body is not UTF-8")
		return nil, nil
	}
	root, err := parseXML(m.body)
	if err != nil {
		bad("xml", "not well-formed: %v", err)
		return nil, nil
	}
	if root.NS != nsSOAP || root.Name != "Envelope" {
		bad("envelope", "document element {%s}%s", root.NS, root.Name)
		return nil, nil
	}
	for i, k := range root.Kids {
		if k.NS != nsSOAP || k.Name != "Header" && k.Name != "Body" || k.Name == "Header" && i > 0 || k.Name == "Body" && i != len(root.Kids)-1 {
			bad("envelope", "child {%s}%s of the envelope", k.NS, k.Name)
		}
	}
	b := root.kid(nsSOAP, "Body")
	if b == nil || len(b.Kids) != 1 {
		bad("body", "the body does not have exactly one element")
		return root, nil
	}
	return root, b.Kids[0]
}

// checkFault checks the structure of a fault and returns its text.
func (c *Case) checkFault(what string, f *xnode) string {
	v := f.path(nsSOAP, "Code", "Value")
	text := ""
	r := f.path(nsSOAP, "Reason")
	if r != nil && len(r.kids(nsSOAP, "Text")) > 0 {
		text = r.kids(nsSOAP, "Text")[0].Text
	}
	okCode := false
	if v != nil {
		t := strings.TrimSpace(v.Text)
		for _, x := range []string{"VersionMismatch", "MustUnderstand", "DataEncodingUnknown", "Sender", "Receiver"} {
			okCode = okCode || strings.HasSuffix(t, ":"+x) || t == x
		}
	}
	if f.NS != nsSOAP || f.Name != "Fault" || !okCode || r == nil || len(r.kids(nsSOAP, "Text")) == 0 {
		c.Violate("wire:fault", "%s: a fault without the structure of SOAP 1.2 (Code/Value, Reason/Text)", what)
	} else if l := r.kids(nsSOAP, "Text")[0]; len(l.Attrs) == 0 || l.Attrs[0].Name != "lang" {
		c.Violate("wire:fault", "%s: the text of a fault has no language", what)
	}
	return text
}

type soapSeen struct{ ids map[string]string }

// checkRequest checks a request that the library sent.
func (c *Case) checkRequest(o *opDef, q messages.Request, url, id string, m *httpMsg, seen *soapSeen) {
	what := "request " + o.Name()
	root, body := c.checkEnvelope(what, m)
	if body == nil {
		return
	}
	bad := func(key, format string, a ...any) {
		c.Violate("request:"+key, "%s: %s\n%.1500s", what, fmt.Sprintf(format, a...), m.body)
	}
	if !strings.HasPrefix(m.start, "POST ") {
		bad("method", "%s", m.start)
	}
	h := root.kid(nsSOAP, "Header")
	if h == nil {
		bad("header", "no header")
		return
	}
	text := func(name string) string {
		k := h.kids(nsWSA, name)
		if len(k) != 1 {
			bad("addressing:"+name, "%d %s headers of WS-Addressing", len(k), name)
			return ""
		}
		return strings.TrimSpace(k[0].Text)
	}
	if a := text("Action"); a != "/"+o.Action {
		bad("action", "action %q", a)
	}
	if a := text("To"); a != url {
		bad("to", "To %q instead of %q", a, url)
	}
	mid := text("MessageID")
	if i := strings.Index(mid, ":"); i <= 0 || i == len(mid)-1 {
		bad("messageid", "message ID %q is not an absolute URI", mid)
	}
	if prev, ok := seen.ids[mid]; ok {
		bad("messageid-reused", "message ID %q was used before, by %s", mid, prev)
	}
	seen.ids[mid] = o.Name()
	for _, f := range h.kids(nsWSA, "From") {
		if f.kid(nsWSA, "Address") == nil {
			bad("from", "From without Address")
		}
	}
	if p := m.get("Content-Type"); strings.Contains(p, "action=") && !strings.Contains(p, `action="/`+o.Action+`"`) {
		bad("action-param", "Content-Type %q", p)
	}
	ns, name, t := o.bodyName(false)
	ci := h.kids(ns, "chargeBoxIdentity")
	if len(ci) != 1 || ci[0].Text != id {
		got := "absent"
		for _, k := range h.Kids {
			if k.Name == "chargeBoxIdentity" {
				got = fmt.Sprintf("{%s} %q", k.NS, k.Text)
			}
		}
		bad("chargeboxidentity", "chargeBoxIdentity is %s instead of {%s} %q", got, ns, id)
	}
	c.checkBody(what, body, ns, name, t, o.xmlTree(q, false), m)
}

func (c *Case) checkBody(what string, body *xnode, ns, name string, t *xsdType, want *xnode, m *httpMsg) {
	if body.NS != ns || body.Name != name {
		c.Violate("body:name:"+name, "%s: body element {%s}%s instead of {%s}%s", what, body.NS, body.Name, ns, name)
		return
	}
	if d := t.check(body, ""); d != "" {
		c.Violate("body:wsdl:"+name+":"+diffKey(d), "%s violates the WSDL: %s\n%.1500s", what, d, m.body)
		return
	}
	if d := sameTree(body, want, t, ""); d != "" {
		c.Violate("body:value:"+name+":"+diffKey(d), "%s does not say what was sent: %s\n%.1500s", what, d, m.body)
	}
	c.Count("envelopes_validated", 1)
}

func randIdent(r *rand.Rand) string {
	g := &gen{R: r, XML: true}
	for i := 0; ; i++ {
		s := []string{"cp", "CP 1", "ü/ß", "a&b<c>", `"q"`, "x/../y", "日本", "0001"}[r.IntN(8)]
		if r.IntN(2) == 0 {
			s = g.str()
		}
		if s != "" && s == strings.TrimSpace(s) && !strings.ContainsAny(s, "\r\n\t") {
			return s
		}
	}
}

func c18Emit(c *Case) {
	x := &recorder{g: randGen(rngFor(c.Seed, c.Kind, c.Idx, "resp"))}
	x.g.Lists = true
	id := randIdent(c.R)
	g := c.newSOAPRig(id, asCS(x.handle), asCP(x.handle))
	if g == nil {
		return
	}
	seen := &soapSeen{map[string]string{}}
	for i := 0; i < 4; i++ {
		all := append(ops15(true), ops15(false)...)
		o := all[(c.Idx*4+i)%len(all)]
		gg := randGen(c.R)
		gg.Lists = true
		q := gg.req15(o)
		net, path := g.n, g.csPath
		if !o.FromCP {
			net, path = g.m, g.cpPath
		}
		url := net.HTTP() + path
		before := len(net.Links())
		x.forget()
		s := g.send(q)
		if !s.Within(2*time.Minute) || s.Err != nil {
			c.Violate("error:"+o.Name(), "Send of %s %s failed on a working network: %v", o.Name(), show(q), s.Err)
			continue
		}
		links := net.Links()[before:]
		if len(links) != 1 || len(x.recs) != 1 {
			c.Violate("exchanges", "%s took %d connections and was handled %d times", o.Name(), len(links), len(x.recs))
			continue
		}
		sentReq := parseHTTP(links[0].C2S.Bytes(), false)
		if path == "" {
			path = "/"
		}
		if want := "POST " + path + " HTTP/1.1"; sentReq.start != want {
			c.Violate("request-line", "the request for %s begins with %q instead of %q", url, sentReq.start, want)
		}
		c.checkRequest(o, q, url, id, sentReq, seen)
		resp := parseHTTP(links[0].S2C.Bytes(), true)
		if _, body := c.checkEnvelope("response "+o.Name(), resp); body != nil {
			if k := resp.status(); k != 200 {
				c.Violate("response:status", "response of %s has status %d", o.Name(), k)
			}
			ns, name, t := o.bodyName(true)
			c.checkBody("response "+o.Name(), body, ns, name, t, o.xmlTree(x.recs[0].resp, true), resp)
		}
		c.Eval("emit " + o.Name() + setFields(q) + setFields(s.Resp))
		c.Sample("%s", links[0].C2S.Bytes())
	}
}

// c18IDs: message IDs are unique across many concurrent calls of several senders.
func c18IDs(c *Case) {
	x := &recorder{g: &gen{R: rngFor(c.Seed, c.Idx), XML: true, Valid: true}}
	g := c.newSOAPRig("cp", asCS(x.handle), asCP(x.handle))
	if g == nil {
		return
	}
	addr2 := c.NewNet()
	a2 := addr2.Addr()
	p2 := c.mustCP(g.n, cpOpt{ID: "cp2", SOAP: true, Port: &a2})
	if p2 == nil {
		return
	}
	var all []*sent
	for i := 0; i < 60; i++ {
		all = append(all, g.send(&cpreq.Heartbeat{}), g.send(&csreq.ClearCache{}), c.sendCP(p2, &cpreq.Heartbeat{}))
	}
	for _, s := range all {
		if !s.Within(2*time.Minute) || s.Err != nil {
			c.Violate("error", "concurrent Send failed: %v", s.Err)
			return
		}
	}
	ids := map[string]bool{}
	k := 0
	for _, n := range []*Net{g.n, g.m} {
		for _, l := range n.Links() {
			root, _ := c.checkEnvelope("request", parseHTTP(l.C2S.Bytes(), false))
			if root == nil {
				continue
			}
			h := root.path(nsSOAP, "Header")
			if h == nil || h.kid(nsWSA, "MessageID") == nil {
				c.Violate("request:addressing:MessageID", "no message ID")
				continue
			}
			id := h.kid(nsWSA, "MessageID").Text
			if ids[id] {
				c.Violate("request:messageid-reused", "message ID %q was used twice", id)
			}
			ids[id] = true
			k++
		}
	}
	if k != len(all) {
		c.Violate("exchanges", "%d calls, %d requests on the wire", len(all), k)
	}
	c.Count("message_ids_compared", int64(k))
	c.Eval(fmt.Sprint("ids", c.Idx))
}

// post sends an HTTP request with a body and returns status and body of the answer.
func (c *Case) post(n *Net, body string, hdr ...string) *httpMsg {
	return c.postAs(n, "POST / HTTP/1.1", body, hdr...)
}

func (c *Case) postAs(n *Net, start, body string, hdr ...string) *httpMsg {
	h := start + "\r\nHost: x\r\nConnection: close\r\n" + soapCT(c.R.IntN(1000)) + "\r\n"
	chunked := false
	for _, x := range hdr {
		h += x + "\r\n"
		chunked = chunked || strings.Contains(x, "chunked")
	}
	if chunked {
		var b strings.Builder
		for len(body) > 0 {
			k := 1 + c.R.IntN(len(body))
			fmt.Fprintf(&b, "%x\r\n%s\r\n", k, body[:k])
			body = body[k:]
		}
		body = b.String() + "0\r\n\r\n"
	} else {
		h += "Content-Length: " + strconv.Itoa(len(body)) + "\r\n"
	}
	got := c.httpRaw(n, h+"\r\n"+body, 5*time.Minute)
	return parseHTTP([]byte(got), true)
}

// httpStub is a scripted HTTP server: f gets each connection after its request
// (nil if there was none) has been read.
func (c *Case) httpStub(n *Net, f func(conn net.Conn, l *Link, body []byte)) {
	ln, err := net.Listen("tcp", n.Addr())
	if err != nil {
		panic(err)
	}
	c.Defer(func() { ln.Close() })
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				req, err := http.ReadRequest(bufio.NewReader(conn))
				var b []byte
				if err == nil {
					b, _ = io.ReadAll(req.Body)
				}
				f(conn, conn.(*simConn).link, b)
			}()
		}
	}()
}

// soapCT is one of the ways to say that a body is a SOAP 1.2 message in UTF-8.
func soapCT(k int) string {
	all := []string{
		"Content-Type: application/soap+xml; charset=utf-8",
		"Content-Type: application/soap+xml",
		"Content-Type: application/soap+xml;charset=UTF-8",
		`Content-Type: application/soap+xml; charset="utf-8"; action="/Action"`,
		`content-type: application/soap+xml; action="urn:x;y"; charset=utf-8`,
		"CONTENT-TYPE: Application/SOAP+XML; Charset=Utf-8",
		"Content-type:application/soap+xml;charset=utf8 ",
		`Content-Type: application/soap+xml ; charset=UTF-8`,
	}
	return all[k%len(all)]
}

func httpResponse(status, body string, hdr ...string) string {
	s := "HTTP/1.1 " + status + "\r\n" + soapCT(len(body)) + "\r\nContent-Length: " + strconv.Itoa(len(body)) + "\r\nConnection: close\r\n"
	for _, h := range hdr {
		s += h + "\r\n"
	}
	return s + "\r\n" + body
}

// c18Inbound: messages written in any XML style are understood, in all four roles.
func c18Inbound(c *Case) {
	for i := 0; i < 3; i++ {
		all := append(ops15(true), ops15(false)...)
		o := all[(c.Idx*3+i)%len(all)]
		if c.Idx/len(all)%2 == 0 {
			inboundRequest(c, o)
		} else {
			inboundResponse(c, o)
		}
		if c.Bad() {
			return
		}
	}
}

func inboundRequest(c *Case, o *opDef) {
	x := &recorder{g: randGen(rngFor(c.Seed, c.Kind, c.Idx, "resp"))}
	id := randIdent(c.R)
	gotID := ""
	n := c.NewNet()
	if o.FromCP {
		c.startCS(n, func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
			gotID = m.ChargePointID
			return asCS(x.handle)(q, m)
		})
	} else {
		addr := n.Addr()
		if c.mustCP(c.NewNet(), cpOpt{ID: id, SOAP: true, Port: &addr, Handler: asCP(x.handle)}) == nil || !waitListening(n) {
			return
		}
		gotID = id
	}
	gg := randGen(c.R)
	q := gg.req15(o)
	st := randStyle(c.R)
	ns, _, _ := o.bodyName(false)
	doc := st.doc(st.envelope(o.xmlTree(q, false), "/"+o.Action, id, ns))
	if _, err := parseXML([]byte(doc)); err != nil {
		panic(fmt.Sprintf("harness: %v in %s", err, doc))
	}
	var hdr []string
	if c.R.IntN(3) == 0 {
		hdr = append(hdr, "Transfer-Encoding: chunked")
	}
	if c.R.IntN(3) == 0 {
		hdr = append(hdr, `SOAPAction: "/`+o.Action+`"`)
	}
	m := c.post(n, doc, hdr...)
	if m.err != "" || m.status() != 200 || len(x.recs) != 1 {
		c.Violate("inbound:rejected:"+o.Name(), "a valid %s was not handled (calls: %d): %s %s\n%s\nrequest:\n%.2500s", o.Name(), len(x.recs), m.err, m.start, m.body, doc)
		return
	}
	if d := diff(q, x.recs[0].req); d != "" {
		c.Violate("inbound:misread:"+o.Name()+":"+diffKey(d), "%s was misread: %s\nrequest:\n%.2500s", o.Name(), d, doc)
	}
	if gotID != id {
		c.Violate("inbound:identity", "chargeBoxIdentity %q was read as %q\nrequest:\n%.2500s", id, gotID, doc)
	}
	if _, body := c.checkEnvelope("response "+o.Name(), m); body != nil {
		rns, name, t := o.bodyName(true)
		c.checkBody("response "+o.Name(), body, rns, name, t, o.xmlTree(x.recs[0].resp, true), m)
	}
	c.Eval("in " + o.Name() + st.String() + setFields(q))
}

func inboundResponse(c *Case, o *opDef) {
	n := c.NewNet()
	gg := randGen(c.R)
	want := gg.resp15(o)
	st := randStyle(c.R)
	ns, _, _ := o.bodyName(true)
	doc := st.doc(st.envelope(o.xmlTree(want, true), "/"+o.Action+"Response", "", ns))
	out := httpResponse("200 OK", doc)
	switch c.R.IntN(3) {
	case 0: // until the end of the connection
		out = "HTTP/1.1 200 OK\r\nContent-Type: application/soap+xml\r\nConnection: close\r\n\r\n" + doc
	case 1:
		out = "HTTP/1.1 200 OK\r\nContent-Type: application/soap+xml;charset=UTF-8\r\nTransfer-Encoding: chunked\r\n\r\n" + fmt.Sprintf("%x\r\n%s\r\n0\r\n\r\n", len(doc), doc)
	}
	c.httpStub(n, func(conn net.Conn, l *Link, body []byte) {
		conn.Write([]byte(out))
		conn.Close()
	})
	q := gg.req15(o)
	s := c.soapSend(n, q)
	if s == nil {
		return
	}
	if !s.Within(2*time.Minute) || s.Err != nil {
		c.Violate("inbound:response-rejected:"+o.Name(), "a valid response of %s was not understood: %v\nresponse:\n%.2500s", o.Name(), s.Err, doc)
		return
	}
	if d := diff(want, s.Resp); d != "" {
		c.Violate("inbound:response-misread:"+o.Name()+":"+diffKey(d), "response of %s was misread: %s\nresponse:\n%.2500s", o.Name(), d, doc)
	}
	c.Eval("inresp " + o.Name() + st.String() + setFields(want))
}

// soapSend sends a request with the real client of the right side to a port.
func (c *Case) soapSend(n *Net, q messages.Request) *sent {
	if r, ok := q.(cpreq.ChargePointRequest); ok {
		addr := c.NewNet().Addr()
		p := c.mustCP(n, cpOpt{ID: "cp", SOAP: true, Port: &addr})
		if p == nil {
			return nil
		}
		return c.sendCP(p, r)
	}
	svc, err := cs.New().GetServiceOf("cp", ocpp.V15, n.HTTP()+"/")
	if err != nil {
		c.Violate("getserviceof", "%v", err)
		return nil
	}
	return c.sendCS(svc, q.(csreq.CentralSystemRequest))
}

// ---------------------------------------------------------------- C17

// c17Client: whatever goes wrong with the reply, Send returns an error.
func c17Client(c *Case) {
	isCP := c.R.IntN(2) == 0
	mine := ops15(isCP)
	o := mine[c.R.IntN(len(mine))]
	gg := randGen(c.R)
	st := randStyle(c.R)
	good := gg.resp15(o)
	ns, _, _ := o.bodyName(true)
	goodNode := o.xmlTree(good, true)
	goodDoc := st.doc(st.envelope(goodNode, "/"+o.Action+"Response", "", ns))
	okHTTP := httpResponse("200 OK", goodDoc)
	faultText := gg.nonEmpty(func() string { return strings.TrimSpace(gg.str()) })
	faultDoc := st.doc(st.envelope(newFaultNode(faultText, c.R.IntN(2) == 0), "http://www.w3.org/2005/08/addressing/fault", "", ns))
	other := mine[c.R.IntN(len(mine))]
	for other == o {
		other = mine[c.R.IntN(len(mine))]
	}
	foreign := ops15(!isCP)
	fo := foreign[c.R.IntN(len(foreign))]
	n := c.NewNet()
	nd := c.randNet(n)
	modes := []string{"refused", "hang-dial", "reset-accept", "reset-request", "close", "cut-head", "cut-body", "reset-body", "stall-head", "stall-body", "drip", "garbage", "binary",
		"500-empty", "500-html", "404", "403-valid", "500-valid", "202-empty", "204", "200-empty", "200-html", "200-json", "truncated-xml", "no-body", "empty-body", "no-envelope",
		"fault-200", "fault-500", "fault-400", "fault-11", "other-response", "foreign-response", "request-as-response", "unknown-element", "bad-values", "wrong-root", "two-roots", "utf16", "redirect-loop", "bad-chunk", "huge-head", "bad-status", "entity", "reset-after-head", "short-body", "short-chunk", "status-valid"}
	mode := modes[c.Idx%len(modes)]
	write := func(s string) func(net.Conn, *Link, []byte) {
		return func(conn net.Conn, l *Link, b []byte) {
			conn.Write([]byte(s))
			time.Sleep(time.Second)
			conn.Close()
		}
	}
	doc := func(root *xnode) string { return httpResponse("200 OK", st.doc(root)) }
	cut := func(s string, from int) string {
		if from >= len(s)-1 {
			return s[:len(s)-1]
		}
		return s[:from+c.R.IntN(len(s)-1-from)]
	}
	var f func(conn net.Conn, l *Link, b []byte)
	wantText := ""
	head := strings.Index(okHTTP, "\r\n\r\n") + 4
	switch mode {
	case "refused":
		n.Refuse(true)
	case "hang-dial":
		n.HangDial(true)
	case "reset-accept":
		n.OnLink = func(l *Link) { l.Reset() }
	case "reset-request":
		f = func(conn net.Conn, l *Link, b []byte) { l.Reset() }
	case "close":
		f = func(conn net.Conn, l *Link, b []byte) { conn.Close() }
	case "cut-head":
		f = write(cut(okHTTP[:head], 0))
	case "cut-body":
		f = write(cut(okHTTP, head))
	case "reset-body":
		s := cut(okHTTP, head)
		f = func(conn net.Conn, l *Link, b []byte) { conn.Write([]byte(s)); time.Sleep(time.Second); l.Reset() }
	case "short-body": // the whole document, but less than was announced
		end := func(conn net.Conn, l *Link) { conn.Close() }
		if c.R.IntN(2) == 0 {
			end = func(conn net.Conn, l *Link) { time.Sleep(time.Second); l.Reset() }
		}
		s := fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Type: application/soap+xml\r\nContent-Length: %d\r\n\r\n%s", len(goodDoc)+1+c.R.IntN(50), goodDoc)
		f = func(conn net.Conn, l *Link, b []byte) { conn.Write([]byte(s)); end(conn, l) }
	case "short-chunk": // the last chunk is missing
		f = write(fmt.Sprintf("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n", len(goodDoc), goodDoc))
	case "reset-after-head":
		f = func(conn net.Conn, l *Link, b []byte) { conn.Write([]byte(okHTTP[:head])); l.Reset() }
	case "stall-head":
		f = func(conn net.Conn, l *Link, b []byte) { time.Sleep(time.Hour) }
	case "stall-body":
		s := cut(okHTTP, head)
		f = func(conn net.Conn, l *Link, b []byte) { conn.Write([]byte(s)); time.Sleep(time.Hour) }
	case "drip":
		f = func(conn net.Conn, l *Link, b []byte) {
			for i := 0; i < 300; i++ {
				if _, err := conn.Write([]byte("HTTP/1.1 200 OK\r\nX: " + strings.Repeat("x", 300))[i : i+1]); err != nil {
					return
				}
				time.Sleep(5 * time.Second)
			}
		}
	case "garbage":
		f = write("\x16\x03\x01\x02\x00\x01\x00 not http at all\r\n\r\n")
	case "binary":
		f = write(httpResponse("200 OK", "\x00\x01\xff\xfe<\x80"))
	case "500-empty":
		f = write(httpResponse("500 Internal Server Error", ""))
	case "500-html":
		f = write(httpResponse("500 Internal Server Error", "<html><body>oops</body></html>"))
	case "404":
		f = write(httpResponse("404 Not Found", "404 page not found\n"))
	case "status-valid":
		k := 300 + c.R.IntN(300)
		for k == 304 {
			k = 300 + c.R.IntN(300)
		}
		mode += fmt.Sprint(" ", k)
		f = write(httpResponse(fmt.Sprintf("%d Text", k), goodDoc))
	case "403-valid":
		f = write(httpResponse("403 Forbidden", goodDoc))
	case "500-valid":
		f = write(httpResponse("503 Service Unavailable", goodDoc))
	case "202-empty":
		f = write(httpResponse("202 Accepted", ""))
	case "204":
		f = write("HTTP/1.1 204 No Content\r\nConnection: close\r\n\r\n")
	case "200-empty":
		f = write(httpResponse("200 OK", ""))
	case "200-html":
		f = write(httpResponse("200 OK", "<!DOCTYPE html><html><head></head><body><p>login</body></html>"))
	case "200-json":
		f = write(httpResponse("200 OK", `[3,"1",{"status":"Accepted"}]`))
	case "truncated-xml":
		e := strings.LastIndex(goodDoc, "</")
		f = write(httpResponse("200 OK", goodDoc[:1+c.R.IntN(e)]))
	case "no-body":
		e := st.envelope(goodNode, "/x", "", ns)
		e.Kids = e.Kids[:1]
		f = write(doc(e))
	case "empty-body":
		f = write(doc(st.envelope(nil, "/x", "", ns)))
	case "no-envelope":
		f = write(doc(goodNode))
	case "fault-200":
		wantText = faultText
		f = write(httpResponse("200 OK", faultDoc))
	case "fault-500":
		wantText = faultText
		f = write(httpResponse("500 Internal Server Error", faultDoc))
	case "fault-400":
		wantText = faultText
		f = write(httpResponse("400 Bad Request", faultDoc))
	case "fault-11":
		wantText = "plain reason"
		f = write(httpResponse("500 Internal Server Error", `<e:Envelope xmlns:e="http://schemas.xmlsoap.org/soap/envelope/"><e:Body><e:Fault><faultcode>e:Server</faultcode><faultstring>plain reason</faultstring></e:Fault></e:Body></e:Envelope>`))
	case "other-response":
		f = write(doc(st.envelope(other.xmlTree(gg.resp15(other), true), "/x", "", ns)))
	case "foreign-response":
		f = write(doc(st.envelope(fo.xmlTree(gg.resp15(fo), true), "/x", "", ns)))
	case "request-as-response":
		f = write(doc(st.envelope(o.xmlTree(gg.req15(o), false), "/x", "", ns)))
	case "unknown-element":
		f = write(doc(st.envelope(&xnode{NS: ns, Name: "fooResponse"}, "/x", "", ns)))
	case "bad-values":
		o = findOp("StartTransaction", true)
		if !isCP {
			o = findOp("GetLocalListVersion", false)
		}
		t := o.xmlTree((&gen{R: c.R, XML: true, Mode: genFull}).resp15(o), true)
		for _, k := range t.Kids {
			if len(k.Kids) == 0 {
				k.Text = []string{"abc", "1.5.2", "12x", "--3", "9999999999999999999999"}[c.R.IntN(5)]
			}
		}
		f = write(doc(st.envelope(t, "/x", "", ns)))
	case "wrong-root":
		e := st.envelope(goodNode, "/x", "", ns)
		e.Name = "Envelop"
		f = write(doc(e))
	case "two-roots":
		f = write(httpResponse("200 OK", "<a/><b/>"))
	case "utf16":
		b := []byte{0xff, 0xfe}
		for _, r := range goodDoc {
			b = append(b, byte(r), byte(r>>8))
		}
		f = write(httpResponse("200 OK", string(b)))
	case "redirect-loop":
		f = write("HTTP/1.1 307 Temporary Redirect\r\nLocation: /\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
	case "bad-chunk":
		f = write("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n" + goodDoc)
	case "huge-head":
		n.Chunk = nil // in few pieces: it is long
		f = write("HTTP/1.1 200 OK\r\nX: " + strings.Repeat("y", 12<<20))
	case "bad-status":
		f = write("HTTP/1.1 abc\r\n\r\n")
	case "entity":
		f = write(httpResponse("200 OK", `<!DOCTYPE e [<!ENTITY a "aaaaaaaaaa"><!ENTITY b "&a;&a;&a;">]><e>&b;</e>`))
	}
	var mu sync.Mutex
	broken := true
	c.httpStub(n, func(conn net.Conn, l *Link, b []byte) {
		mu.Lock()
		br := broken
		mu.Unlock()
		if br && f != nil {
			f(conn, l, b)
			return
		}
		conn.Write([]byte(okHTTP))
		conn.Close()
	})
	var q messages.Request = gg.req15(o)
	var send func() *sent
	if isCP {
		addr := c.NewNet().Addr()
		p := c.mustCP(n, cpOpt{ID: "cp", SOAP: true, Port: &addr})
		if p == nil {
			return
		}
		send = func() *sent { return c.sendCP(p, q.(cpreq.ChargePointRequest)) }
	} else {
		svc, err := cs.New().GetServiceOf("cp", ocpp.V15, n.HTTP()+"/")
		if err != nil {
			c.Violate("getserviceof", "%v", err)
			return
		}
		send = func() *sent { return c.sendCS(svc, q.(csreq.CentralSystemRequest)) }
	}
	var pend []*sent
	for i := 0; i < 1+c.R.IntN(3); i++ {
		pend = append(pend, send())
	}
	for _, s := range pend {
		switch {
		case !s.Within(70 * time.Second):
			c.Violate("client-hang:"+mode, "Send of %s has not returned after 70 s (reply: %s)", o.Name(), mode)
		case s.Err == nil:
			c.Violate("client-success:"+mode, "Send of %s returned success (%s) although the reply was: %s", o.Name(), show(s.Resp), mode)
		case wantText != "" && !strings.Contains(s.Err.Error(), wantText):
			c.Violate("client-text:"+mode, "the fault said %q, the error says %q", wantText, s.Err)
		case s.Resp != nil && !reflect.ValueOf(s.Resp).IsNil():
			c.Violate("client-both:"+mode, "Send returned an error and a response: %v, %s", s.Err, show(s.Resp))
		}
		c.Count("failed_calls", 1)
		c.Count("failure:"+strings.Fields(mode)[0], 1)
	}
	mu.Lock()
	broken = false
	mu.Unlock()
	n.Refuse(false)
	n.HangDial(false)
	n.OnLink = nil
	settle(2 * time.Second)
	if mode != "bad-values" {
		if s := send(); !s.Within(70*time.Second) || s.Err != nil {
			c.Violate("client-broken-after:"+mode, "a Send after the failure failed: %v", s.Err)
		} else if d := diff(good, s.Resp); d != "" {
			c.Violate("client-broken-after:"+mode, "a Send after the failure returned something else: %s", d)
		}
	}
	c.Eval("client " + mode + o.Name() + nd + st.String())
}

// c17Server: malformed and misdirected requests, against the two real servers.
func c17Server(c *Case) {
	isCS := c.R.IntN(2) == 0
	x := &recorder{g: randGen(rngFor(c.Seed, c.Kind, c.Idx, "resp"))}
	n := c.NewNet()
	nd := c.randNet(n)
	if isCS {
		c.startCS(n, asCS(x.handle))
	} else {
		addr := n.Addr()
		if c.mustCP(c.NewNet(), cpOpt{ID: "cp", SOAP: true, Port: &addr, Handler: asCP(x.handle)}) == nil || !waitListening(n) {
			return
		}
	}
	mine, foreign := ops15(isCS), ops15(!isCS)
	state := ""
	probe := func(after string) {
		o := mine[c.R.IntN(len(mine))]
		gg := randGen(c.R)
		q := gg.req15(o)
		st := randStyle(c.R)
		ns, _, _ := o.bodyName(false)
		x.forget()
		m := c.post(n, st.doc(st.envelope(o.xmlTree(q, false), "/"+o.Action, "cp", ns)))
		if m.err != "" || m.status() != 200 || len(x.recs) != 1 || diff(q, x.recs[0].req) != "" {
			c.Violate("server-dead", "after %s, a valid %s was not served: %s %s (handler calls: %d)", after, o.Name(), m.err, m.start, len(x.recs))
		}
	}
	modes := []string{"empty", "not-xml", "json", "truncated", "wrong-root", "no-body", "empty-body", "unknown", "response", "misdirected", "bad-value", "bad-time", "html", "binary", "cut", "reset", "bare", "deep", "no-header", "text-body", "bad-bool", "fault", "method", "huge-number", "unclosed", "stall", "old-soap"}
	for i := 0; i < 4 && !c.Bad(); i++ {
		mode := modes[(c.Idx*4+i)%len(modes)]
		o := mine[c.R.IntN(len(mine))]
		gg := randGen(c.R)
		st := randStyle(c.R)
		ns, _, _ := o.bodyName(false)
		tree := o.xmlTree(gg.req15(o), false)
		env := st.envelope(tree, "/"+o.Action, "cp", ns)
		body := st.doc(env)
		x.forget()
		var m *httpMsg
		mustRefuse := true
		set := func(action string, kid int, val string) {
			op := findOp(action, isCS)
			t := op.xmlTree((&gen{R: c.R, XML: true, Mode: genFull}).req15(op), false)
			t.Kids[kid].Text, t.Kids[kid].Kids = val, nil
			body = st.doc(st.envelope(t, "/"+action, "cp", ns))
		}
		switch mode {
		case "empty":
			body = ""
		case "not-xml":
			body = "this is not XML"
		case "json":
			body = `[2,"1","Heartbeat",{}]`
		case "truncated", "unclosed":
			e := strings.LastIndex(body, "</")
			body = body[:c.R.IntN(e)]
		case "wrong-root":
			env.Name = "envelope"
			body = st.doc(env)
		case "no-body":
			env.Kids = env.Kids[:1]
			body = st.doc(env)
		case "empty-body":
			env.Kids[1].Kids = nil
			body = st.doc(env)
		case "text-body":
			env.Kids[1].Kids = nil
			env.Kids[1].Text = "hello"
			body = st.doc(env)
		case "unknown":
			tree.Name = []string{"fooRequest", "Authorize", "authorizerequest", "x", "triggerMessageRequest", "heartbeat"}[c.R.IntN(6)]
			body = st.doc(env)
		case "response":
			op := append(ops15(true), ops15(false)...)[c.R.IntN(25)]
			env.Kids[1].Kids = []*xnode{op.xmlTree(gg.resp15(op), true)}
			body = st.doc(env)
		case "fault":
			env.Kids[1].Kids = []*xnode{newFaultNode("x", false)}
			body = st.doc(env)
		case "misdirected":
			op := foreign[c.R.IntN(len(foreign))]
			fns, _, _ := op.bodyName(false)
			body = st.doc(st.envelope(op.xmlTree(gg.req15(op), false), "/"+op.Action, "cp", fns))
		case "bad-value", "huge-number":
			v := []string{"abc", "1.5", "0x10", "1e3", "--1", "true"}[c.R.IntN(6)]
			if mode == "huge-number" {
				v = "99999999999999999999999999"
			}
			if isCS {
				set([]string{"StatusNotification", "StartTransaction", "MeterValues", "StopTransaction"}[c.R.IntN(4)], 0, v)
			} else {
				set([]string{"UnlockConnector", "ChangeAvailability", "ReserveNow", "CancelReservation", "RemoteStopTransaction"}[c.R.IntN(5)], 0, v)
			}
		case "bad-time":
			v := []string{"yesterday", "2019-13-01T00:00:00Z", "12:00", "", "2019-01-01T00:00:00+99:99x"}[c.R.IntN(5)]
			if isCS {
				set("StartTransaction", 2, v)
			} else {
				set("UpdateFirmware", 0, v)
			}
		case "bad-bool":
			if isCS {
				set("StopTransaction", 3, "maybe")
			} else {
				set("SendLocalList", 1, "maybe")
			}
		case "html":
			body = "<html><body><p>hi</body></html>"
		case "binary":
			body = "\x00\xff\xfe\x01" + body
		case "bare":
			body = st.doc(tree)
		case "deep":
			body = strings.Repeat("<a>", 20000)
		case "old-soap":
			body = `<e:Envelope xmlns:e="http://schemas.xmlsoap.org/soap/envelope/"><e:Header/><e:Body><GetQuote xmlns="urn:q"/></e:Body></e:Envelope>`
		case "no-header":
			env.Kids = env.Kids[1:]
			body = st.doc(env)
		case "method":
			v := []string{"PUT", "DELETE", "OPTIONS", "PATCH", "TRACE"}[c.R.IntN(5)]
			m = c.postAs(n, v+" / HTTP/1.1", "not a soap message")
		case "cut", "reset", "stall":
			conn, err := net.Dial("tcp", n.Host())
			if err != nil {
				c.Violate("server-dead", "connection refused")
				return
			}
			e := strings.LastIndex(body, "</")
			fmt.Fprintf(conn, "POST / HTTP/1.1\r\nHost: x\r\nContent-Type: application/soap+xml\r\nContent-Length: %d\r\n\r\n%s", len(body), body[:c.R.IntN(e)])
			switch mode {
			case "cut":
				settle(time.Second)
				conn.Close()
			case "reset":
				settle(time.Second)
				conn.(*simConn).link.Reset()
			case "stall":
				c.Defer(func() { conn.Close() })
				settle(10 * time.Minute)
			}
			settle(time.Second)
			mustRefuse = false
		}
		if mode == "no-header" { // without a header the sender is unknown: not handled, or handled under no identity
			mustRefuse = false
			m = c.post(n, body)
			if m.err != "" {
				c.Violate("server-no-reply:"+mode, "no complete HTTP answer: %s", m.err)
			}
		} else if mustRefuse {
			if m == nil {
				m = c.post(n, body)
			}
			fault := false
			if m.err == "" {
				if root, err := parseXML(m.body); err == nil {
					b := root.path(nsSOAP, "Body")
					fault = root.Name == "Envelope" && b != nil && len(b.kids(nsSOAP, "Fault")) == 1
				}
			}
			switch {
			case m.err != "":
				c.Violate("server-no-reply:"+mode, "no complete HTTP answer (%s) to\n%.1500s", m.err, body)
			case m.status() >= 200 && m.status() < 300 && !fault:
				c.Violate("server-success:"+mode, "answered as success: %s\n%.600s\nrequest:\n%.1500s", m.start, m.body, body)
			case m.status() < 200 || m.status() >= 300 && m.status() < 400:
				c.Violate("server-status:"+mode, "%s", m.start)
			}
		}
		if mode != "no-header" && len(x.recs) != 0 {
			c.Violate("server-handled:"+mode, "the handler was called with %s for a request that is %s:\n%.1500s", show(x.recs[0].req), mode, body)
		}
		c.Count("bad_requests", 1)
		c.Count("bad:"+mode, 1)
		state += mode + " "
		if c.R.IntN(2) == 0 || i == 3 {
			probe(state)
		}
	}
	c.Eval(fmt.Sprint("server ", isCS, nd, state))
}

// c17Pair: a handler's error reaches the caller of the real client as its text.
func c17Pair(c *Case) {
	gg := &gen{R: c.R, XML: true}
	var mu sync.Mutex
	var failure, passOn error
	fail := func(q messages.Request) (messages.Response, error) {
		mu.Lock()
		defer mu.Unlock()
		if failure == nil {
			return (&gen{R: rngFor(3), Valid: true, XML: true}).resp15(opOfReq(q)), nil
		}
		return nil, failure
	}
	g := c.newSOAPRig("cp", asCS(fail), asCP(fail))
	if g == nil {
		return
	}
	nd := c.randNet(g.n) + c.randNet(g.m)
	for i := 0; i < 4; i++ {
		t := strings.TrimSpace(gg.str())
		failing := c.R.IntN(5) > 0
		if !failing || c.R.IntN(8) == 0 { // an error may say nothing
			t = ""
		}
		if failing && c.R.IntN(8) == 0 {
			t = strings.Repeat("long ", 4000)
		}
		mu.Lock()
		if failure = nil; failing {
			if failure = gg.anError(t); passOn != nil && c.R.IntN(4) == 0 { // what an earlier Send said
				failure = passOn
			}
			t = failure.Error()
		}
		mu.Unlock()
		all := append(ops15(true), ops15(false)...)
		o := all[c.R.IntN(len(all))]
		net := g.n
		if !o.FromCP {
			net = g.m
		}
		before := len(net.Links())
		var ss []*sent
		for j := 0; j < 1+c.R.IntN(3); j++ {
			ss = append(ss, g.send(gg.req15(o)))
		}
		for _, s := range ss {
			switch {
			case !s.Within(70 * time.Second):
				c.Violate("pair-hang", "Send of %s did not return", o.Name())
				return
			case !failing && s.Err != nil:
				c.Violate("pair-error", "Send of %s failed: %v", o.Name(), s.Err)
			case failing && s.Err == nil:
				c.Violate("pair-success", "the handler of %s returned the error %q, Send returned %s", o.Name(), t, show(s.Resp))
			case failing && !strings.Contains(s.Err.Error(), t):
				c.Violate("pair-text", "the handler of %s returned the error %q, Send the error %q", o.Name(), t, s.Err)
			}
			if s.Err != nil && len(s.Err.Error()) < 1000 {
				passOn = s.Err
			}
		}
		if failing {
			for _, l := range net.Links()[before:] {
				m := parseHTTP(l.S2C.Bytes(), true)
				if _, body := c.checkEnvelope("fault of "+o.Name(), m); body != nil {
					if ft := c.checkFault("fault of "+o.Name(), body); ft != t {
						c.Violate("fault-text", "the handler's error is %q, the fault says %q", t, ft)
					}
				}
			}
		}
		c.Count("handler_errors", int64(len(ss)))
		c.Eval("pairerr " + o.Name() + nd + t)
	}
}

// ---------------------------------------------------------------- C21 over SOAP

type unencodableCP struct {
	cpresp.Heartbeat
	C chan int
}
type unencodableCS struct {
	csresp.ClearCache
	C chan int
}

func c21SOAP(c *Case) {
	gg := &gen{R: c.R, XML: true, Edge: true}
	type plan struct {
		name string
		resp messages.Response
		err  error
		work time.Duration
	}
	var mu sync.Mutex
	var cur plan
	var passOn error
	calls := 0
	fn := func(q messages.Request) (messages.Response, error) {
		mu.Lock()
		p := cur
		calls++
		mu.Unlock()
		time.Sleep(p.work)
		if p.name == "ok" {
			return (&gen{R: rngFor(2), Valid: true, XML: true}).resp15(opOfReq(q)), nil
		}
		return p.resp, p.err
	}
	g := c.newSOAPRig("cp", asCS(fn), asCP(fn))
	if g == nil {
		return
	}
	state := ""
	far := time.Date(12000, 1, 1, 0, 0, 0, 0, time.UTC)
	for i := 0; i < 1+c.R.IntN(5) && !c.Bad(); i++ {
		fromCP := c.R.IntN(2) == 0
		all := ops15(fromCP)
		o := all[c.R.IntN(len(all))]
		p := plan{name: "ok", work: []time.Duration{0, 0, ms, 50 * time.Second}[c.R.IntN(4)]}
		switch k := c.R.IntN(10); k {
		case 0, 1:
			p.name, p.err = "error", gg.anError(gg.nonEmpty(gg.str))
			if passOn != nil && c.R.IntN(3) == 0 { // what an earlier Send said
				p.err = passOn
			}
		case 2:
			p.name, p.err = "error-empty", errors.New("")
		case 3:
			p.name, p.err = "error-not-xml", errors.New("\x00\x01\xff bad")
		case 4:
			p.name = "nil"
		case 5:
			p.name, p.resp = "typed-nil", (*csresp.ClearCache)(nil)
			if fromCP {
				p.resp = (*cpresp.Heartbeat)(nil)
			}
		case 6:
			p.name, p.resp = "unencodable", &unencodableCS{C: make(chan int)}
			if fromCP {
				p.resp = &unencodableCP{C: make(chan int)}
			}
		case 7:
			if fromCP {
				p.name, p.resp = "unencodable-time", &cpresp.Heartbeat{CurrentTime: far}
				if o.Action != "Heartbeat" {
					o = findOp("Heartbeat", true)
				}
			}
		case 8:
			other := all[c.R.IntN(len(all))]
			if other != o {
				p.name, p.resp = "other-type", gg.resp15(other)
			}
		}
		mu.Lock()
		cur = p
		before := calls
		mu.Unlock()
		net := g.n
		if !fromCP {
			net = g.m
		}
		links := len(net.Links())
		s := g.send(gg.req15(o))
		if !s.Within(70 * time.Second) {
			c.Violate("soap-hang:"+p.name, "Send did not return")
			return
		}
		settle(2 * time.Second)
		if calls != before+1 {
			c.Violate("soap-handler-calls:"+p.name, "the handler ran %d times for one request", calls-before)
		}
		if s.Err != nil && len(s.Err.Error()) < 2000 {
			passOn = s.Err
		}
		if p.name == "ok" {
			if s.Err != nil {
				c.Violate("soap-error:ok", "Send of %s failed although the handler (after %v) answered: %v; before: %s", o.Name(), p.work, s.Err, state)
			}
		} else if s.Err == nil {
			c.Violate("soap-success:"+p.name, "the handler of %s returned %s, Send returned success: %s", o.Name(), p.name, show(s.Resp))
		}
		ls := net.Links()[links:]
		if len(ls) != 1 {
			c.Violate("soap-attempts:"+p.name, "one Send made %d connections", len(ls))
		}
		for _, l := range ls {
			m := parseHTTP(l.S2C.Bytes(), true)
			if m.err != "" {
				c.Violate("soap-answer:"+p.name, "handler outcome %s: not one complete HTTP answer: %s", p.name, m.err)
				continue
			}
			root, err := parseXML(m.body)
			var f *xnode
			if err == nil {
				f = root.path(nsSOAP, "Body", "Fault")
			}
			if p.name != "ok" && p.name != "other-type" && f == nil {
				c.Violate("soap-no-fault:"+p.name, "handler outcome %s was answered with %s\n%.800s", p.name, m.start, m.body)
			}
			if f != nil && p.name == "error" {
				if t := c.checkFault("answer", f); t != p.err.Error() {
					c.Violate("soap-fault-text", "handler error %q, fault text %q", p.err, t)
				}
			}
		}
		state += p.name + o.Name() + " "
		c.Count("handler_outcomes_soap", 1)
	}
	mu.Lock()
	cur = plan{name: "ok"}
	mu.Unlock()
	for _, q := range []messages.Request{&cpreq.Heartbeat{}, &csreq.ClearCache{}} {
		if s := g.send(q); !s.Within(70*time.Second) || s.Err != nil {
			c.Violate("soap-dead-afterwards", "after %s a valid request failed: %v", state, s.Err)
		}
	}
	c.Eval("c21soap" + state)
}
