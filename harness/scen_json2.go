package verifharness

// C03 handling and answering, C04 hostile bytes, C05 strict structure,
// C06 fidelity, C07 schema conformance, C21 handler failures, C22 wire form.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	ocpp "github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

func init() {
	register("C03", func(r *Run) {
		r.Cases("pipeline", r.N(500, 12000), c03Pipeline)
		r.Cases("cut", r.N(150, 3000), c03Cut)
		r.Cases("flood", r.N(4, 40), c03Flood)
		r.Cases("ids", r.N(40, 800), c03IDs)
		r.Cases("many", 2, c03Many)
	})
	register("C04", func(r *Run) {
		r.Cases("frames", r.N(700, 20000), c04Frames)
		r.Cases("protocol", r.N(200, 5000), c04Protocol)
		r.Cases("long", r.N(8, 150), c04Long)
		r.Cases("pings", r.N(60, 1500), c22Pings)
		r.Cases("big", r.N(6, 100), c04Big)
	})
	register("C05", func(r *Run) {
		n := len(ops) * 2 * 2
		r.Cases("mutate", n*r.N(1, 12), c05Mutate)
		r.Cases("frames", r.N(300, 6000), c05Frames)
	})
	register("C06", func(r *Run) {
		r.Cases("pair", r.N(120, 4000), c06Pair)
		r.Cases("scripted", r.N(160, 5000), c06Scripted)
		r.Cases("long", r.N(4, 100), c06Pair)
		r.Cases("large", r.N(2, 12), c22Large)
	})
	register("C07", func(r *Run) {
		r.Cases("emit", r.N(160, 6000), c07Emit)
	})
	register("C21", func(r *Run) {
		r.Cases("ws", r.N(300, 6000), c21WS)
		r.Cases("soap", r.N(80, 1500), c21SOAP)
	})
	register("C22", func(r *Run) {
		r.Cases("virtual", r.N(150, 4000), c22Virtual)
		r.Cases("large", r.N(4, 12), c22Large)
		r.Cases("same", r.N(60, 1500), c01Same)
		r.Cases("pings", r.N(60, 1500), c22Pings)
		r.Cases("many", 2, cManySends)
		r.Plain("parallel", r.N(16, 300), c22Parallel)
	})
}

// opsOf are the operations sent by one side.
func opsOf(fromCP bool) (out []*opDef) {
	for _, o := range ops {
		if o.FromCP == fromCP {
			out = append(out, o)
		}
	}
	return
}

// anyHandler adapts one function to both handler types.
type anyFn = func(q messages.Request) (messages.Response, error)

func asCS(f anyFn) csHandler {
	return func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		r, err := f(q)
		if r == nil {
			return nil, err
		}
		return r.(cpresp.ChargePointResponse), err
	}
}

func asCP(f anyFn) cpHandler {
	return func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		r, err := f(q)
		if r == nil {
			return nil, err
		}
		return r.(csresp.CentralSystemResponse), err
	}
}

var idRunes = []rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.:/ é😀\"\\<&")

func randID(r *rand.Rand, i int) string {
	n := r.IntN(28)
	var b strings.Builder
	fmt.Fprintf(&b, "%d.", i) // the separator keeps them distinct
	for j := 0; j < n; j++ {
		b.WriteRune(idRunes[r.IntN(len(idRunes))])
	}
	return b.String()
}

// ---------------------------------------------------------------- C03

type c03Item struct {
	id      string
	action  string
	payload any
	want    string // "handled", or the error code
	req     messages.Request
	handled int // index among the handled ones
}

type c03Rec struct {
	q          messages.Request
	start, end time.Time
	resp       messages.Response
	err        error
}

// c03Items makes a random sequence of CALLs for the real side.
func c03Items(c *Case, toCP bool, k int) (items []*c03Item) {
	g := &gen{R: c.R, Valid: true}
	mine, other := opsOf(!toCP), opsOf(toCP)
	for i := 0; i < k; i++ {
		it := &c03Item{id: randID(c.R, i), handled: -1}
		switch c.R.IntN(10) {
		default:
			o := mine[c.R.IntN(len(mine))]
			it.action, it.want, it.req = o.Action, "handled", g.req(o)
			it.payload = toJSON(it.req, schemaOf(o.Action))
		case 0:
			it.action = []string{"Nonsense", "", "heartbeat", "HeartbeatRequest", "Heartbeat ", "\u0000", "SignCertificate", "RemoteStartTransactions", "Nil"}[c.R.IntN(9)]
			it.want, it.payload = "NotSupported", map[string]any{}
		case 1:
			o := other[c.R.IntN(len(other))]
			if o.Action == "DataTransfer" {
				o = other[0]
			}
			it.action, it.want = o.Action, "NotSupported"
			it.payload = toJSON(g.req(o), schemaOf(o.Action))
		case 2:
			o := mine[c.R.IntN(len(mine))]
			p := toJSON(g.req(o), schemaOf(o.Action))
			s := schemaOf(o.Action)
			it.action, it.want, it.payload = o.Action, "FormationViolation", p
			if len(s.Required) > 0 && c.R.IntN(2) == 0 {
				delete(p, s.Required[c.R.IntN(len(s.Required))])
			} else {
				p["notAProperty"] = []any{1, "x", map[string]any{}, json.RawMessage("1e400"), json.RawMessage("-0.0e-5000"), json.RawMessage("123456789012345678901234567890")}[c.R.IntN(6)]
			}
		}
		items = append(items, it)
	}
	return
}

func c03Pipeline(c *Case) {
	isCP := c.Idx%2 == 0
	nested := c.R.IntN(4) == 0
	slow := c.R.IntN(9) / 2
	var mu sync.Mutex
	var recs []*c03Rec
	active, maxActive := 0, 0
	g2 := &gen{R: rngFor(c.Seed, c.Kind, c.Idx, "h"), Valid: true}
	var g *rig
	nestedErr := ""
	fn := func(q messages.Request) (messages.Response, error) {
		mu.Lock()
		rec := &c03Rec{q: clone(q), start: time.Now()}
		recs = append(recs, rec)
		active++
		if active > maxActive {
			maxActive = active
		}
		var d time.Duration
		switch slow {
		case 1:
			d = time.Duration(g2.R.IntN(300)) * ms
		case 2:
			d = time.Duration(g2.R.IntN(20)) * time.Second
		case 4:
			d = time.Duration(g2.R.IntN(3)) * []time.Duration{31 * time.Second, 61 * time.Second, 11 * time.Minute, 2 * time.Hour}[g2.R.IntN(4)]
		}
		o := opOfReq(q)
		if g2.p(1, 4) {
			rec.err = g2.anError("handler says no: " + g2.str())
			if g2.p(1, 8) {
				rec.err = errors.New(g2.str()) // perhaps without a text
			}
		}
		if o != nil && (rec.err == nil || g2.p(1, 3)) { // the error wins
			rec.resp = g2.resp(o)
		}
		own := rec.resp
		if own != nil {
			own = clone(own)
		}
		doNested := nested && g2.p(1, 3)
		mu.Unlock()
		time.Sleep(d)
		if doNested {
			s, nq := g.send(fmt.Sprintf("nested%d", len(recs)))
			mu.Lock()
			if !s.Within(30*time.Second) || s.Err != nil && !strings.Contains(show(nq), "ERR") {
				nestedErr = fmt.Sprintf("%s: %v", show(nq), s.Err)
			} else if s.Err != nil && g2.p(1, 2) { // what Send said is passed on
				rec.err = s.Err
			}
			mu.Unlock()
		}
		mu.Lock()
		active--
		rec.end = time.Now()
		mu.Unlock()
		return own, rec.err
	}
	g = c.newRig(isCP, asCS(fn), asCP(fn))
	if g == nil {
		return
	}
	nd := c.randNet(g.n)
	for i := c.R.IntN(8) - 5; i > 0; i-- {
		e := g.refusal("no " + g2.str())
		mu.Lock()
		g2.Errs = append(g2.Errs, e)
		mu.Unlock()
	}
	g.pe.mu.Lock()
	g.pe.OnMsg = func(p *peer, m *ocppMsg) {
		if m.Type == 2 {
			p.Text(replyText(m))
		}
	}
	g.pe.mu.Unlock()
	k := 1 + c.R.IntN(30)
	items := c03Items(c, isCP, k)
	for i, it := range items {
		g.pe.Call(it.id, it.action, it.payload)
		if c.R.IntN(6) == 0 {
			settle(time.Duration(c.R.IntN(2000)) * ms)
		}
		if c.R.IntN(10) == 0 && !nested {
			s, q := g.send(fmt.Sprintf("cross%d", i))
			c.Defer(func() {
				if !s.Within(2 * time.Minute) {
					c.Violate("send-hangs", "Send(%s) did not return", show(q))
				} else {
					c.checkTagged(s, q, "cross")
				}
			})
		}
	}
	if slow == 4 {
		settle(time.Duration(k) * 5 * time.Hour)
	}
	settle(15 * time.Minute)
	mu.Lock()
	defer mu.Unlock()
	if nestedErr != "" {
		c.Violate("send-in-handler", "a Send made inside the handler failed although its reply was sent at once: %s", nestedErr)
	}
	c03Check(c, g, items, recs, maxActive, true)
	g.check()
	c.Eval(fmt.Sprint("pipeline", isCP, k, nested, slow, nd, len(recs)))
}

func c03Check(c *Case, g *rig, items []*c03Item, recs []*c03Rec, maxActive int, complete bool) {
	if maxActive > 1 {
		c.Violate("concurrent-handling", "%d handler calls ran at the same time for one connection", maxActive)
	}
	var valid []*c03Item
	for _, it := range items {
		if it.want == "handled" {
			it.handled = len(valid)
			valid = append(valid, it)
		}
	}
	for i, rec := range recs {
		if i >= len(valid) {
			c.Violate("handled-too-many", "%d valid CALLs sent, handler ran %d times; extra: %s", len(valid), len(recs), show(rec.q))
			return
		}
		if d := diff(valid[i].req, rec.q); d != "" {
			c.Violate("order", "handler call %d got %s %s, expected CALL %q %s %s: %s", i, rec.q.Action(), show(rec.q), valid[i].id, valid[i].action, show(valid[i].req), d)
			return
		}
	}
	if complete && len(recs) != len(valid) {
		c.Violate("not-handled", "%d valid CALLs sent, handler ran %d times", len(valid), len(recs))
		return
	}
	c.Count("calls_checked", int64(len(items)))
	answers := answersTo(g.pe.Msgs())
	for _, it := range items {
		as := answers[it.id]
		if len(as) > 1 {
			c.Violate("answered-twice", "CALL %q (%s) got %d answers: %v", it.id, it.action, len(as), as)
			continue
		}
		if len(as) == 0 {
			if complete {
				c.Violate("not-answered:"+it.want, "CALL %q %s got no answer", it.id, it.action)
			}
			continue
		}
		a := as[0]
		if it.want != "handled" {
			if a.Type != 4 || a.Code != it.want {
				c.Violate("wrong-code:"+it.want, "CALL [2,%q,%q,%s] should be answered with %s, got %s", it.id, it.action, jsonText(it.payload), it.want, a)
			}
			continue
		}
		if it.handled >= len(recs) {
			c.Violate("answered-unhandled", "CALL %q %s was answered (%s) but never handled", it.id, it.action, a)
			continue
		}
		rec := recs[it.handled]
		if a.At.Before(rec.start) {
			c.Violate("answered-early", "CALL %q was answered before it was handled", it.id)
		}
		if rec.err != nil {
			if a.Type != 4 || a.Code != "InternalError" || a.Desc != rec.err.Error() {
				c.Violate("wrong-error-answer", "handler returned error %q for CALL %q, answer is %s", rec.err, it.id, a)
			}
			continue
		}
		if a.Type != 3 {
			c.Violate("wrong-answer", "handler returned %s for CALL %q %s, answer is %s", show(rec.resp), it.id, it.action, a)
			continue
		}
		if d := wireDiff(a.Payload, rec.resp, schemaOf(it.action+"Response")); d != "" {
			c.Violate("wrong-answer"+diffKey(d), "handler returned %s for CALL %q %s, answer is %s: %s", show(rec.resp), it.id, it.action, a, d)
		}
	}
}

// c03Cut: the connection breaks in the middle; nothing is handled twice, out of
// order or under another connection, and no answer is made up.
func c03Cut(c *Case) {
	isCP := c.Idx%2 == 0
	var mu sync.Mutex
	var recs []*c03Rec
	active, maxActive := 0, 0
	g2 := &gen{R: rngFor(c.Seed, c.Kind, c.Idx, "h"), Valid: true}
	fn := func(q messages.Request) (messages.Response, error) {
		mu.Lock()
		rec := &c03Rec{q: q, start: time.Now(), resp: g2.resp(opOfReq(q))}
		recs = append(recs, rec)
		active++
		if active > maxActive {
			maxActive = active
		}
		d := time.Duration(g2.R.IntN(300)) * ms
		mu.Unlock()
		time.Sleep(d)
		mu.Lock()
		active--
		mu.Unlock()
		return rec.resp, nil
	}
	g := c.newRig(isCP, asCS(fn), asCP(fn))
	if g == nil {
		return
	}
	c.randNet(g.n)
	items := c03Items(c, isCP, 2+c.R.IntN(12))
	l := g.n.Links()[0]
	for _, it := range items {
		g.pe.Call(it.id, it.action, it.payload)
	}
	settle(time.Duration(c.R.IntN(1500)) * ms)
	if c.R.IntN(2) == 0 {
		l.Reset()
	} else {
		g.pe.Close()
	}
	settle(3 * time.Minute)
	mu.Lock()
	n := len(recs)
	c03Check(c, g, items, recs, maxActive, false)
	mu.Unlock()
	g.check()
	if isCP { // it must have come back
		if pe := g.raw.Peer(1, time.Minute); pe != nil {
			pe.Call("after", "ClearCache", map[string]any{})
			if a := pe.Answer(time.Minute, "after"); a == nil {
				c.Violate("dead-after-cut", "after a reconnect the charge point does not answer")
			}
		}
	}
	c.Eval(fmt.Sprint("cut", isCP, len(items), n))
}

// ---------------------------------------------------------------- C04

// hostile makes one text or binary frame that a peer might send.
func hostile(c *Case, g *rig, i int) (int, []byte) {
	r := c.R
	op := 1
	if r.IntN(8) == 0 {
		op = 2
	}
	gg := &gen{R: r, Edge: true}
	id := fmt.Sprintf("h%d", i)
	lits := []string{"null", "true", "0", "-1", "2", "3", "4", "5", "2.5", "1e400", "-1e-400", "\"2\"", "\"\"", "[]", "{}", "[[]]", "{\"a\":null}", "\"x\"", "\"\\ud800\"", "9007199254740993", "[null]", "{\"\":{}}", "{\"a\":1,\"a\":2}"}
	lit := func() string { return lits[r.IntN(len(lits))] }
	switch r.IntN(12) {
	case 0: // arbitrary arrays
		n := r.IntN(7)
		var f []string
		for j := 0; j < n; j++ {
			f = append(f, lit())
		}
		return op, []byte("[" + strings.Join(f, ",") + "]")
	case 1: // right type, everything else arbitrary
		t := []string{"2", "3", "4"}[r.IntN(3)]
		n := r.IntN(6)
		f := []string{t}
		for j := 0; j < n; j++ {
			switch {
			case j == 0 && r.IntN(2) == 0:
				f = append(f, jsonText(id))
			case j == 1 && t == "2" && r.IntN(2) == 0:
				f = append(f, jsonText(ops[r.IntN(len(ops))].Action))
			default:
				f = append(f, lit())
			}
		}
		return op, []byte("[" + strings.Join(f, ",") + "]")
	case 2: // bytes
		b := make([]byte, r.IntN(60))
		for j := range b {
			b[j] = byte(r.IntN(256))
		}
		return op, b
	case 3: // whole JSON texts that are not arrays
		return op, []byte(lits[r.IntN(len(lits))])
	case 4: // deep nesting
		n := []int{10, 1000, 9990, 10001, 30000}[r.IntN(5)]
		o, cl := "[", "]"
		if r.IntN(2) == 0 {
			o, cl = "{\"a\":", "}"
		}
		deep := strings.Repeat(o, n) + "1" + strings.Repeat(cl, n)
		if r.IntN(2) == 0 {
			return op, []byte(deep)
		}
		return op, []byte("[2," + jsonText(id) + ",\"MeterValues\"," + deep + "]")
	case 5: // replies to whatever is outstanding, wrong in some way
		for _, m := range g.pe.Msgs() {
			if m.Type == 2 && r.IntN(2) == 0 {
				id = m.ID
			}
		}
		forms := []string{"[3,%s]", "[3,%s,null]", "[3,%s,[]]", "[3,%s,\"x\"]", "[3,%s,{\"nope\":1}]", "[4,%s]", "[4,%s,null,null,null]", "[4,%s,\"GenericError\"]", "[4,%s,\"GenericError\",\"d\"]",
			"[4,%s,\"GenericError\",\"d\",[]]", "[4,%s,1,2,3]", "[3,%s,{},{}]", "[3,[%s],{}]", "[4,%s,\"\",\"\",{}]"}
		return op, []byte(fmt.Sprintf(forms[r.IntN(len(forms))], jsonText(id)))
	case 6: // valid CALL, then mutated bytes
		o := ops[r.IntN(len(ops))]
		b := []byte(fmt.Sprintf("[2,%s,%q,%s]", jsonText(id), o.Action, jsonText(toJSON(gg.req(o), schemaOf(o.Action)))))
		for j := 1 + r.IntN(4); j > 0 && len(b) > 0; j-- {
			p := r.IntN(len(b))
			switch r.IntN(4) {
			case 0:
				b[p] = byte(r.IntN(256))
			case 1:
				b = append(b[:p], b[p+1:]...)
			case 2:
				b = b[:p]
			case 3:
				q := r.IntN(len(b) + 1)
				if q < p {
					p, q = q, p
				}
				b = append(b[:q:q], b[p:]...)
			}
		}
		return op, b
	case 7: // valid action, payload with arbitrary property values
		o := ops[r.IntN(len(ops))]
		p := toJSON(gg.req(o), schemaOf(o.Action))
		var keys []string
		for k := range p {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if r.IntN(2) == 0 {
				p[k] = json.RawMessage(lit())
			}
		}
		b, err := json.Marshal(p)
		if err != nil {
			b = []byte("{}")
		}
		return op, []byte(fmt.Sprintf("[2,%s,%q,%s]", jsonText(id), o.Action, b))
	case 8: // very long
		s := strings.Repeat("x", 1+r.IntN(300000))
		return op, []byte(fmt.Sprintf("[2,%s,%s,{}]", jsonText(id), jsonText(s)))
	case 9: // whitespace, newlines, BOM, trailing text
		forms := []string{"\n\n[2,\"%s\",\n\"Heartbeat\",\n{}]\n", "\ufeff[2,\"%s\",\"Heartbeat\",{}]", "[2,\"%s\",\"Heartbeat\",{}]x", "[2,\"%s\",\"Heartbeat\",{}][]", "[2,\"%s\"\n,\"Heart\nbeat\",{}]", " ", "", "\n", "\x00"}
		f := forms[r.IntN(len(forms))]
		if strings.Contains(f, "%s") {
			f = fmt.Sprintf(f, id)
		}
		return op, []byte(f)
	case 10: // control frames
		b := make([]byte, r.IntN(126))
		return []int{9, 10}[r.IntN(2)], b
	}
	// an error or result for an ID of our own
	return op, []byte(fmt.Sprintf("[%d,%s,%s,%s,%s]", 2+r.IntN(3), jsonText(id), lit(), lit(), lit()))
}

func c04Frames(c *Case) {
	g := c.newRig(c.Idx%2 == 0, nil, nil)
	if g == nil {
		return
	}
	c.randNet(g.n)
	var other *peer
	var osvc csService
	if !g.isCP {
		other, _ = c.rawCP(g.n, "other")
		settle(time.Second)
		osvc, _ = g.csys.GetServiceOf("other", ocpp.V16, "")
		if other == nil || osvc == nil {
			c.Violate("other-connect", "a second charge point could not connect")
			return
		}
	}
	k := 1 + c.R.IntN(14)
	var ss []*sent
	for i := c.R.IntN(4); i > 0; i-- {
		s, _ := g.send(fmt.Sprintf("t%d", i))
		ss = append(ss, s)
	}
	settle(500 * ms)
	for i := 0; i < k; i++ {
		op, b := hostile(c, g, i)
		c.Logf("frame op %d: %.300q", op, b)
		if err := g.pe.Raw(op, b); err != nil {
			c.Violate("connection-dropped", "the connection was closed after a frame that is legal in WebSocket (%v)", err)
			return
		}
		c.Count("hostile_frames", 1)
		if c.R.IntN(4) == 0 {
			settle(time.Duration(c.R.IntN(1000)) * ms)
		}
		if c.R.IntN(6) == 0 {
			s, _ := g.send(fmt.Sprintf("u%d", i))
			ss = append(ss, s)
		}
	}
	settle(20 * time.Second)
	if c.R.IntN(3) == 0 { // nothing at all for a while
		if c.R.IntN(2) == 0 {
			g.pe.Raw(9+c.R.IntN(2), []byte("still there"))
		}
		settle(time.Duration(1+c.R.IntN(100)) * 20 * time.Minute)
	}
	if g.pe.IsClosed() {
		c.Violate("connection-dropped", "the real side closed the connection after %d hostile frames", k)
		return
	}
	g.probe()
	if other != nil {
		probeSendCS(c, osvc, other)
	}
	for _, s := range ss {
		if !s.Within(3 * time.Minute) {
			c.Violate("send-hangs", "a Send that was outstanding during hostile frames never returned")
		}
	}
	g.probe()
	c.Eval(fmt.Sprint("frames", g.isCP, k, c.Idx%128))
}

// c04Protocol: bytes that violate the WebSocket protocol, or end it. The real
// side may drop this connection, but nothing else may suffer.
func c04Protocol(c *Case) {
	g := c.newRig(c.Idx%2 == 0, nil, nil)
	if g == nil {
		return
	}
	var other *peer
	var osvc csService
	if !g.isCP {
		other, _ = c.rawCP(g.n, "other")
		settle(time.Second)
		osvc, _ = g.csys.GetServiceOf("other", ocpp.V16, "")
		if other == nil || osvc == nil {
			c.Violate("other-connect", "a second charge point could not connect")
			return
		}
	}
	raw := g.pe.ws.UnderlyingConn()
	r := c.R
	s, _ := g.send("t")
	settle(100 * ms)
	mask := byte(0x80)
	if g.isCP {
		mask = 0
	}
	kind := r.IntN(9)
	switch kind {
	case 0:
		b := make([]byte, 1+r.IntN(200))
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		raw.Write(b)
	case 1: // wrong masking
		raw.Write([]byte{0x81, (mask ^ 0x80) | 3, 'a', 'b', 'c', 'd', 'e', 'f', 'g'})
	case 2: // reserved opcode
		raw.Write([]byte{0x83 + byte(r.IntN(5)), mask | 1, 1, 2, 3, 4, 5})
	case 3: // control frame too long / fragmented
		raw.Write(append([]byte{[]byte{0x89, 0x09, 0x08}[r.IntN(3)], mask | 126, 0, 200, 1, 2, 3, 4}, make([]byte, 200)...))
	case 4: // length claims far more than is sent
		raw.Write([]byte{0x81, mask | 127, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4, 'x'})
	case 5: // continuation without start, or never ended
		if r.IntN(2) == 0 {
			raw.Write([]byte{0x80, mask | 1, 0, 0, 0, 0, 'x'})
		} else {
			raw.Write([]byte{0x01, mask | 1, 0, 0, 0, 0, '['})
		}
	case 6: // close frames, odd codes and payloads
		codes := [][]byte{{}, {3}, {3, 0xe8}, {0, 0}, {0x03, 0xed}, {0xff, 0xff}, append([]byte{3, 0xe8}, bytes.Repeat([]byte{0xff}, 100)...)}
		g.pe.Raw(8, codes[r.IntN(len(codes))])
	case 7: // RSV bits
		raw.Write([]byte{0xf1, mask | 1, 0, 0, 0, 0, 'x'})
	case 8: // half a frame, then gone
		raw.Write([]byte{0x81, mask | 100, 1, 2, 3, 4, '['})
		settle(time.Duration(r.IntN(3000)) * ms)
		if r.IntN(2) == 0 {
			g.n.Links()[0].Reset()
		} else {
			g.pe.Close()
		}
	}
	settle(5 * time.Second)
	if other != nil {
		probeSendCS(c, osvc, other)
	}
	g.pe.Close()
	g.n.Links()[0].Reset()
	if !s.Within(2 * time.Minute) {
		c.Violate("send-hangs", "a Send on a connection broken by protocol garbage never returned")
	}
	settle(10 * time.Second)
	// and a new connection works
	if g.isCP {
		pe := g.raw.Peer(1, 2*time.Minute)
		if pe == nil {
			c.Violate("no-reconnect", "the charge point did not come back after protocol garbage (kind %d)", kind)
			return
		}
		g.pe = pe
		settle(100 * ms)
	} else {
		pe, err := c.rawCP(g.n, "cp")
		if err != nil {
			c.Violate("no-reconnect", "the central system accepts no connection after protocol garbage (kind %d): %v", kind, err)
			return
		}
		settle(100 * ms)
		svc, err := g.csys.GetServiceOf("cp", ocpp.V16, "")
		if err != nil {
			c.Violate("no-service", "GetServiceOf after reconnecting: %v", err)
			return
		}
		g.pe, g.svc = pe, svc
	}
	g.probe()
	c.Eval(fmt.Sprint("protocol", kind, g.isCP, c.Idx%16))
}

// ---------------------------------------------------------------- C05

type mutation struct {
	name    string // kind and schema path
	payload map[string]any
}

func deepCopy(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = deepCopy(e)
		}
		return m
	case []any:
		l := make([]any, len(x))
		for i, e := range x {
			l[i] = deepCopy(e)
		}
		return l
	}
	return v
}

var wrongValues = map[string][]any{
	"string":  {json.Number("1"), true, map[string]any{}, []any{}, []any{"x"}},
	"integer": {"1", "", true, map[string]any{}, []any{}, []any{json.Number("1")}},
	"number":  {"1", "", true, map[string]any{}, []any{}},
	"boolean": {"true", json.Number("1"), map[string]any{}, []any{}},
	"object":  {"x", json.Number("1"), true, []any{}, []any{map[string]any{}}},
	"array":   {"x", json.Number("1"), true, map[string]any{}, map[string]any{"0": "x"}},
}

// mutations enumerates single structural violations of a full payload.
func mutations(full map[string]any, s *schema) (out []mutation) {
	var walk func(path []any, name string, v any, s *schema)
	with := func(path []any, f func(parent any, last any)) map[string]any {
		root := deepCopy(full).(map[string]any)
		var cur any = root
		for _, p := range path[:len(path)-1] {
			switch k := p.(type) {
			case string:
				cur = cur.(map[string]any)[k]
			case int:
				cur = cur.([]any)[k]
			}
		}
		f(cur, path[len(path)-1])
		return root
	}
	set := func(path []any, nv any) map[string]any {
		return with(path, func(parent, last any) {
			switch k := last.(type) {
			case string:
				parent.(map[string]any)[k] = nv
			case int:
				parent.([]any)[k] = nv
			}
		})
	}
	walk = func(path []any, name string, v any, s *schema) {
		if s == nil {
			return
		}
		switch s.Type {
		case "object":
			m := v.(map[string]any)
			closed := s.Additional != nil && !*s.Additional
			for _, extra := range []string{"notAProperty", "", "customData", "_private", "$schema", "x-vendor", "@type", "#text", "xmlns", "vendorExtension", "a.b", "\u00e9", "XMLName", "chargepointRequest"} {
				if !closed {
					break
				}
				out = append(out, mutation{"additional:" + name + "." + extra, set(append(append([]any{}, path...), extra), "x")})
			}
			var keys []string
			for k := range m {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				p := append(append([]any{}, path...), k)
				n := name + "." + k
				ps := s.Properties[k]
				if s.requires(k) {
					out = append(out, mutation{"missing:" + n, with(p, func(parent, last any) { delete(parent.(map[string]any), k) })})
					out = append(out, mutation{"null:" + n, set(p, nil)})
				}
				if !closed && !s.requires(k) {
					if ps != nil {
						for i, w := range wrongValues[ps.Type] {
							out = append(out, mutation{fmt.Sprintf("type%d:%s", i, n), set(p, w)})
						}
						walk(p, n, m[k], ps)
					}
					continue
				}
				// a property under a name that differs only in case is an unknown property
				out = append(out, mutation{"case:" + n, with(p, func(parent, last any) {
					pm := parent.(map[string]any)
					pm[strings.ToUpper(k[:1])+k[1:]] = pm[k]
					if s.requires(k) {
						delete(pm, k)
					}
				})})
				if ps != nil {
					for i, w := range wrongValues[ps.Type] {
						out = append(out, mutation{fmt.Sprintf("type%d:%s", i, n), set(p, w)})
					}
					walk(p, n, m[k], ps)
				}
			}
		case "array":
			l := v.([]any)
			for i := range l {
				if i > 0 && i != len(l)-1 {
					continue
				}
				p := append(append([]any{}, path...), i)
				n := name + "[]"
				out = append(out, mutation{"null:" + n, set(p, nil)})
				if s.Items != nil {
					for j, w := range wrongValues[s.Items.Type] {
						out = append(out, mutation{fmt.Sprintf("type%d:%s", j, n), set(p, w)})
					}
					walk(p, n, l[i], s.Items)
				}
			}
		}
	}
	walk(nil, "", full, s)
	return
}

// c05Mutate: one operation; every single violation of its request (sent to the
// receiving side) or of its response (sent as the reply to a Send).
func c05Mutate(c *Case) {
	o := ops[c.Idx%len(ops)]
	reply := (c.Idx/len(ops))%2 == 1
	mode := genFull
	if (c.Idx/len(ops)/2)%2 == 1 {
		mode = genRandom
	}
	gg := &gen{R: c.R, Valid: true, Mode: mode, MaxList: 2}
	if !reply {
		handled := 0
		var last messages.Request
		var mu sync.Mutex
		fn := func(q messages.Request) (messages.Response, error) {
			mu.Lock()
			handled++
			last = q
			mu.Unlock()
			return (&gen{R: rngFor(1), Valid: true, Mode: genMinimal}).resp(opOfReq(q)), nil
		}
		g := c.newRig(!o.FromCP, asCS(fn), asCP(fn))
		if g == nil {
			return
		}
		s := schemaOf(o.Action)
		base := gg.req(o)
		full := toJSON(base, s)
		muts := mutations(full, s)
		for i, m := range muts {
			id := fmt.Sprintf("m%d", i)
			g.pe.Call(id, o.Action, m.payload)
			a := g.pe.Answer(time.Minute, id)
			mu.Lock()
			h, l := handled, last
			mu.Unlock()
			key := "request:" + o.Name() + ":" + m.name
			if h != 0 {
				c.Violate(key, "%s with payload %s reached the handler as %s", o.Action, jsonText(m.payload), show(l))
				mu.Lock()
				handled = 0
				mu.Unlock()
			} else if a == nil {
				c.Violate(key+":unanswered", "%s with payload %s was not answered", o.Action, jsonText(m.payload))
			} else if a.Type != 4 {
				c.Violate(key, "%s with payload %s was answered with %s", o.Action, jsonText(m.payload), a)
			}
			c.Count("mutated_requests", 1)
			c.Eval(key)
		}
		g.pe.Call("good", o.Action, full)
		a := g.pe.Answer(time.Minute, "good")
		mu.Lock()
		h, l := handled, last
		mu.Unlock()
		if a == nil || a.Type != 3 || h != 1 {
			c.Violate("valid-rejected:"+o.Name(), "valid %s %s: handled %d times, answer %v", o.Action, jsonText(full), h, a)
		} else if d := diff(base, l); d != "" {
			c.Violate("valid-altered:"+o.Name()+diffKey(d), "valid %s %s arrived as %s", o.Action, jsonText(full), show(l))
		}
		c.Sample("%s", jsonText(full))
		return
	}
	g := c.newRig(o.FromCP, nil, nil)
	if g == nil {
		return
	}
	s := schemaOf(o.Action + "Response")
	base := gg.resp(o)
	full := toJSON(base, s)
	muts := append(mutations(full, s), mutation{"", full})
	q := gg.req(o)
	for _, m := range muts {
		before := len(g.pe.Msgs())
		var st *sent
		if g.isCP {
			st = c.sendCP(g.cpp, q.(cpreq.ChargePointRequest))
		} else {
			st = c.sendCS(g.svc, q.(csreq.CentralSystemRequest))
		}
		var call *ocppMsg
		g.pe.Wait(time.Minute, func(m *ocppMsg) bool {
			if m.Type == 2 && len(g.pe.msgs) > before && m == g.pe.msgs[len(g.pe.msgs)-1] {
				call = m
				return true
			}
			return false
		})
		if call == nil {
			c.Violate("not-sent:"+o.Name(), "Send(%s) put nothing on the wire", show(q))
			return
		}
		g.pe.Reply(call.ID, m.payload)
		if !st.Within(2 * time.Minute) {
			c.Violate("send-hangs", "Send(%s) did not return after the reply %s", show(q), jsonText(m.payload))
			return
		}
		key := "reply:" + o.Name() + ":" + m.name
		if m.name == "" {
			if st.Err != nil {
				c.Violate("valid-rejected:"+o.Name(), "valid reply %s: Send returned error %v", jsonText(full), st.Err)
			} else if d := diff(base, st.Resp); d != "" {
				c.Violate("valid-altered:"+o.Name()+diffKey(d), "valid reply %s arrived as %s", jsonText(full), show(st.Resp))
			}
			continue
		}
		if st.Err == nil {
			c.Violate(key, "%s was replied to with %s and Send returned %s as success", o.Action, jsonText(m.payload), show(st.Resp))
		}
		c.Count("mutated_replies", 1)
		c.Eval(key)
	}
}

// ---------------------------------------------------------------- C06

// c06Pair: every operation through both real sides, with the wire in between.
func c06Pair(c *Case) {
	n := c.NewNet()
	nd := c.randNet(n)
	gg := &gen{R: c.R, Edge: true, Mode: genMode(c.R.IntN(3)), MaxList: 1 + c.R.IntN(8)}
	if c.Kind == "long" {
		gg.Long, gg.Mode, n.Chunk = 2, genFull, nil
	}
	var mu sync.Mutex
	var got messages.Request
	var resp messages.Response
	fn := func(q messages.Request) (messages.Response, error) {
		mu.Lock()
		defer mu.Unlock()
		got = q
		return resp, nil
	}
	csys := c.startCS(n, asCS(fn))
	p := c.mustCP(n, cpOpt{ID: "cp", Handler: asCP(fn)})
	if p == nil {
		return
	}
	settle(500 * ms)
	svc, err := csys.GetServiceOf("cp", ocpp.V16, "")
	if err != nil {
		c.Violate("no-service", "GetServiceOf: %v", err)
		return
	}
	l := n.Links()[0]
	// both programs use their objects again, and keep the messages they got
	reqs, resps := map[*opDef]messages.Request{}, map[*opDef]messages.Response{}
	type kept struct {
		o        *opDef
		what     string
		at, copy any
	}
	var keep []kept
	order := c.R.Perm(len(ops))
	order = append(order, c.R.Perm(len(ops))[:len(ops)/2]...)
	if c.Kind == "long" {
		order = order[:8]
	}
	for _, i := range order {
		o := ops[i]
		q, a := gg.req(o), gg.resp(o)
		own, ownResp := clone(q), clone(a)
		if x := reqs[o]; x != nil && c.R.IntN(3) > 0 {
			overwrite(reflect.ValueOf(x).Elem(), reflect.ValueOf(q).Elem())
			own = x
		}
		if x := resps[o]; x != nil && c.R.IntN(3) > 0 {
			overwrite(reflect.ValueOf(x).Elem(), reflect.ValueOf(a).Elem())
			ownResp = x
		}
		reqs[o], resps[o] = own, ownResp
		mu.Lock()
		got, resp = nil, ownResp
		mu.Unlock()
		var st *sent
		if o.FromCP {
			st = c.sendCP(p, own.(cpreq.ChargePointRequest))
		} else {
			st = c.sendCS(svc, own.(csreq.CentralSystemRequest))
		}
		if !st.Within(3 * time.Minute) {
			c.Violate("send-hangs:"+o.Name(), "Send(%s) did not return", show(q))
			return
		}
		mu.Lock()
		arrived := got
		mu.Unlock()
		up, down := parseWire(l.C2S.TapSegs(), true), parseWire(l.S2C.TapSegs(), false)
		if !o.FromCP {
			up, down = down, up
		}
		last := func(v wireView) *ocppMsg {
			if len(v.Msgs) == 0 {
				return nil
			}
			m, _ := parseOCPP(v.Msgs[len(v.Msgs)-1].Data)
			return m
		}
		if m := last(up); m == nil || m.Type != 2 || m.Action != o.Action {
			c.Violate("wire:"+o.Name(), "Send(%s %s) put %v on the wire", o.Action, show(q), m)
		} else if d := wireDiff(m.Payload, q, schemaOf(o.Action)); d != "" {
			c.Violate("wire-request:"+o.Name()+diffKey(d), "%s %s was sent as %s: %s", o.Action, show(q), m, d)
		}
		if arrived == nil {
			c.Violate("not-delivered:"+o.Name(), "%s %s never reached the handler: Send returned %v", o.Action, show(q), st.Err)
			continue
		}
		if d := diffSent(q, arrived); d != "" {
			c.Violate("request:"+o.Name()+diffKey(d), "%s was sent as %s and arrived as %s: %s", o.Action, show(q), show(arrived), d)
		}
		if m := last(down); m == nil || m.Type != 3 {
			c.Violate("wire-answer:"+o.Name(), "the handler answered %s with %s, on the wire: %v", o.Action, show(a), m)
		} else if d := wireDiff(m.Payload, a, schemaOf(o.Action+"Response")); d != "" {
			c.Violate("wire-response:"+o.Name()+diffKey(d), "%s response %s was sent as %s: %s", o.Action, show(a), m, d)
		}
		if st.Err != nil {
			c.Violate("response-error:"+o.Name(), "%s was answered with %s but Send returned error %v", o.Action, show(a), st.Err)
		} else if d := diffSent(a, st.Resp); d != "" {
			c.Violate("response:"+o.Name()+diffKey(d), "%s was answered with %s, Send returned %s: %s", o.Action, show(a), show(st.Resp), d)
		} else {
			keep = append(keep, kept{o, "response", st.Resp, clone(st.Resp)})
		}
		keep = append(keep, kept{o, "request", arrived, clone(arrived)})
		if d := diff(q, own); d != "" {
			c.Violate("changed-request:"+o.Name()+diffKey(d), "after Send(%s) the program's own request is %s: %s", show(q), show(own), d)
		}
		if d := diff(a, ownResp); d != "" {
			c.Violate("changed-response:"+o.Name()+diffKey(d), "after the handler returned %s its response is %s: %s", show(a), show(ownResp), d)
		}
		c.Count("exchanges_compared", 1)
		c.Eval(fmt.Sprint(o.Name(), gg.Mode, nd, gg.MaxList))
	}
	for _, k := range keep {
		if d := diff(k.copy, k.at); d != "" {
			c.Violate("changed-later:"+k.what+":"+k.o.Name()+diffKey(d), "the %s %s that was delivered has later become %s: %s", k.o.Name(), show(k.copy), show(k.at), d)
		}
	}
}

// uglyJSON re-encodes a JSON value with random whitespace and escapes.
func uglyJSON(r *rand.Rand, v any) string {
	ws := func() string { return []string{"", "", " ", "\n", "\t \r\n"}[r.IntN(5)] }
	switch x := v.(type) {
	case map[string]any:
		var keys []string
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		var f []string
		for _, k := range keys {
			f = append(f, ws()+uglyJSON(r, k)+ws()+":"+ws()+uglyJSON(r, x[k])+ws())
		}
		return "{" + strings.Join(f, ",") + "}"
	case []any:
		var f []string
		for _, e := range x {
			f = append(f, ws()+uglyJSON(r, e)+ws())
		}
		return "[" + strings.Join(f, ",") + "]"
	case string:
		var b strings.Builder
		b.WriteByte('"')
		for _, c := range x {
			switch {
			case c < 0x20 || c == '"' || c == '\\' || c < 0x10000 && r.IntN(6) == 0:
				fmt.Fprintf(&b, "\\u%04x", c)
			case c == '/' && r.IntN(2) == 0:
				b.WriteString("\\/")
			case c >= 0x10000 && r.IntN(3) == 0:
				c -= 0x10000
				fmt.Fprintf(&b, "\\u%04X\\u%04x", 0xd800+(c>>10), 0xdc00+(c&0x3ff))
			default:
				b.WriteRune(c)
			}
		}
		b.WriteByte('"')
		return b.String()
	case json.Number:
		return uglyNumber(r, x.String())
	}
	return jsonText(v)
}

// uglyNumber spells a number in another way that has exactly the same value.
func uglyNumber(r *rand.Rand, t string) string {
	if i, err := strconv.ParseInt(t, 10, 64); err == nil {
		if i > 1e15 || i < -1e15 {
			return t
		}
		switch r.IntN(8) {
		case 0:
			return t + ".0"
		case 1:
			return t + []string{"e0", "E+0", "e-0", ".00e00"}[r.IntN(4)]
		case 2:
			if i != 0 {
				return t + "0e-1"
			}
		case 3:
			if i%10 == 0 && i != 0 {
				return t[:len(t)-1] + "E1"
			}
		case 4:
			if i == 0 {
				return "-0"
			}
		}
		return t
	}
	if f, err := strconv.ParseFloat(t, 64); err == nil && r.IntN(3) == 0 {
		return strconv.FormatFloat(f, "eEg"[r.IntN(3)], -1, 64)
	}
	return t
}

// c06Scripted: a scripted peer with an encoder of its own, so that two matching
// errors of the library cannot cancel out.
func c06Scripted(c *Case) {
	isCP := c.Idx%2 == 0
	gg := &gen{R: c.R, Edge: true, Mode: genMode(c.R.IntN(3)), MaxList: 1 + c.R.IntN(6)}
	var mu sync.Mutex
	var got messages.Request
	var resp messages.Response
	var herr error
	fn := func(q messages.Request) (messages.Response, error) {
		mu.Lock()
		defer mu.Unlock()
		got = q
		return resp, herr
	}
	g := c.newRig(isCP, asCS(fn), asCP(fn))
	if g == nil {
		return
	}
	nd := c.randNet(g.n)
	for _, i := range c.R.Perm(len(ops)) {
		o := ops[i]
		q, a := gg.req(o), gg.resp(o)
		ugly, wide := c.R.IntN(2) == 0, c.R.IntN(2) == 0
		var tree map[string]any // what was sent to the real side
		enc := func(v any, s *schema) string {
			tree = toJSON(v, s)
			if wide {
				gg.widen(tree, reflect.TypeOf(v).Elem(), s)
			}
			if ugly {
				return uglyJSON(c.R, tree)
			}
			return jsonText(tree)
		}
		cmp := func(sent, arrived any, s *schema, d func(a, b any) string) string {
			if wide {
				return treeDiff(tree, toJSON(arrived, s), "")
			}
			return d(sent, arrived)
		}
		if o.FromCP != isCP { // the real side handles it
			mu.Lock()
			got, resp, herr = nil, a, nil
			etext := ""
			if c.R.IntN(5) == 0 {
				etext = gg.str()
				herr = errors.New(etext)
			}
			mu.Unlock()
			id := randID(c.R, i)
			text := fmt.Sprintf("[2,%s,%s,%s]", jsonText(id), jsonText(o.Action), enc(q, schemaOf(o.Action)))
			g.pe.Text(text)
			m := g.pe.Answer(3*time.Minute, id)
			mu.Lock()
			arrived, e := got, herr
			mu.Unlock()
			if arrived == nil || m == nil {
				c.Violate("not-handled:"+o.Name(), "%.1000s was not handled (answer %v)", text, m)
				continue
			}
			if d := cmp(q, arrived, schemaOf(o.Action), diff); d != "" {
				c.Violate("request:"+o.Name()+diffKey(d), "%.1000s arrived as %s: %s", text, show(arrived), d)
			}
			if e != nil {
				if m.Type != 4 || m.Desc != etext {
					c.Violate("error-text", "handler error %q was sent as %s", etext, m)
				}
			} else if m.Type != 3 {
				c.Violate("wire-answer:"+o.Name(), "the handler answered %s, on the wire: %s", show(a), m)
			} else if d := wireDiff(m.Payload, a, schemaOf(o.Action+"Response")); d != "" {
				c.Violate("wire-response:"+o.Name()+diffKey(d), "response %s was sent as %s: %s", show(a), m, d)
			}
		} else { // the real side sends it
			before := len(g.pe.Msgs())
			var st *sent
			if isCP {
				st = c.sendCP(g.cpp, q.(cpreq.ChargePointRequest))
			} else {
				st = c.sendCS(g.svc, q.(csreq.CentralSystemRequest))
			}
			g.pe.Wait(time.Minute, func(m *ocppMsg) bool { return len(g.pe.msgs) > before })
			ms := g.pe.Msgs()
			if len(ms) <= before {
				c.Violate("not-sent:"+o.Name(), "Send(%s) put nothing on the wire", show(q))
				return
			}
			m := ms[before]
			if d := wireDiff(m.Payload, q, schemaOf(o.Action)); m.Action != o.Action || d != "" {
				c.Violate("wire-request:"+o.Name()+diffKey(d), "%s %s was sent as %s: %s", o.Action, show(q), m, d)
			}
			text := fmt.Sprintf("[3,%s,%s]", jsonText(m.ID), enc(a, schemaOf(o.Action+"Response")))
			g.pe.Text(text)
			if !st.Within(3 * time.Minute) {
				c.Violate("send-hangs:"+o.Name(), "Send did not return after %.1000s", text)
				return
			}
			if st.Err != nil {
				c.Violate("response-error:"+o.Name(), "reply %.1000s: Send returned error %v", text, st.Err)
			} else if d := cmp(a, st.Resp, schemaOf(o.Action+"Response"), diffSent); d != "" {
				c.Violate("response:"+o.Name()+diffKey(d), "reply %.1000s: Send returned %s: %s", text, show(st.Resp), d)
			}
		}
		c.Count("exchanges_compared", 1)
		c.Eval(fmt.Sprint("s", isCP, o.Name(), gg.Mode, nd, ugly))
	}
}

// ---------------------------------------------------------------- C07

func c07Emit(c *Case) {
	n := c.NewNet()
	gg := &gen{R: c.R, Valid: true, Mode: genMode(c.Idx % 3), Zeros: true, MaxList: 3}
	if c.Idx%8 == 7 {
		gg.EmptyLists = true
	}
	var mu sync.Mutex
	var resp messages.Response
	fn := func(q messages.Request) (messages.Response, error) {
		mu.Lock()
		defer mu.Unlock()
		return resp, nil
	}
	csys := c.startCS(n, asCS(fn))
	p := c.mustCP(n, cpOpt{ID: "cp", Handler: asCP(fn)})
	if p == nil {
		return
	}
	settle(50 * ms)
	svc, err := csys.GetServiceOf("cp", ocpp.V16, "")
	if err != nil {
		c.Violate("no-service", "GetServiceOf: %v", err)
		return
	}
	for _, i := range c.R.Perm(len(ops)) {
		o := ops[i]
		q, a := gg.req(o), gg.resp(o)
		mu.Lock()
		resp = a
		mu.Unlock()
		var st *sent
		if o.FromCP {
			st = c.sendCP(p, q.(cpreq.ChargePointRequest))
		} else {
			st = c.sendCS(svc, q.(csreq.CentralSystemRequest))
		}
		if !st.Within(3 * time.Minute) {
			c.Violate("send-hangs:"+o.Name(), "Send(%s) did not return", show(q))
			return
		}
	}
	l := n.Links()[0]
	action := map[string]string{}
	check := func(v wireView, w wireView) {
		for _, m := range append(append([]wsMsg{}, v.Msgs...), w.Msgs...) {
			x, err := parseOCPP(m.Data)
			if err != nil {
				c.Violate("form", "%v", err)
				continue
			}
			var s *schema
			name := ""
			switch x.Type {
			case 2:
				action[x.ID] = x.Action
				name = x.Action
			case 3:
				name = action[x.ID] + "Response"
			default:
				c.Violate("callerror", "a valid exchange was answered with %s", x)
				continue
			}
			s = schemaOf(name)
			for _, e := range validate(x.Payload, s) {
				c.Violate("schema:"+name+e.Path+":"+e.Kind, "%s payload %s: %s is invalid: %s %s", name, x.Payload, e.Path, e.Kind, e.Detail)
			}
			c.Count("payloads_validated", 1)
			var keys []string
			var mm map[string]json.RawMessage
			json.Unmarshal(x.Payload, &mm)
			for k := range mm {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			c.Eval(name + strings.Join(keys, ","))
		}
	}
	up, down := parseWire(l.C2S.TapSegs(), true), parseWire(l.S2C.TapSegs(), false)
	// calls before results
	sortCalls := func(v wireView) (calls, rest wireView) {
		for _, m := range v.Msgs {
			if x, _ := parseOCPP(m.Data); x != nil && x.Type == 2 {
				calls.Msgs = append(calls.Msgs, m)
			} else {
				rest.Msgs = append(rest.Msgs, m)
			}
		}
		return
	}
	uc, ur := sortCalls(up)
	dc, dr := sortCalls(down)
	check(uc, dc)
	check(ur, dr)
	if len(uc.Msgs)+len(dc.Msgs) != len(ops) || len(ur.Msgs)+len(dr.Msgs) != len(ops) {
		c.Violate("count", "%d operations, %d CALLs and %d results on the wire", len(ops), len(uc.Msgs)+len(dc.Msgs), len(ur.Msgs)+len(dr.Msgs))
	}
}

// ---------------------------------------------------------------- C21

type badCPResp struct {
	cpresp.Heartbeat
	err error
}

func (b *badCPResp) MarshalJSON() ([]byte, error) { return nil, b.err }

type badCSResp struct {
	csresp.ClearCache
	err error
}

func (b *badCSResp) MarshalJSON() ([]byte, error) { return nil, b.err }

// lacksRequired says whether a required object of a message is nil.
func lacksRequired(m any, s *schema) bool {
	v := reflect.ValueOf(m).Elem()
	for _, f := range fieldsOf(v.Type()) {
		if x := v.FieldByIndex(f.Index); slices.Contains(s.Required, propName(f.Name)) && x.Kind() == reflect.Pointer && x.IsNil() {
			return true
		}
	}
	return false
}

// refusal is the error of a Send that the peer refused.
func (g *rig) refusal(text string) error {
	code := []string{"NotImplemented", "NotSupported", "InternalError", "ProtocolError", "SecurityError", "FormationViolation", "GenericError", ""}[g.c.R.IntN(8)]
	tag := fmt.Sprintf("refusal%dx", len(g.pe.Msgs()))
	s, q := g.send(tag)
	m := g.pe.Wait(30*time.Second, func(m *ocppMsg) bool { return m.Type == 2 && strings.Contains(m.Raw, tag) })
	if m == nil {
		g.c.Violate("not-sent", "Send(%s) put nothing on the wire", show(q))
		return errors.New(text)
	}
	limit := 30 * time.Second
	switch g.c.R.IntN(5) {
	case 0: // a reply that does not fit
		g.pe.Reply(m.ID, map[string]any{"nonsense": []int{1}})
	case 1: // none
		limit = 70 * time.Second
	default:
		g.pe.Error(m.ID, code, text)
	}
	if !s.Within(limit) || s.Err == nil {
		g.c.Violate("refusal-lost", "Send(%s) was answered with the error %s %q and returned %s, %v", show(q), code, text, show(s.Resp), s.Err)
		return errors.New(text)
	}
	return s.Err
}

func c21WS(c *Case) {
	isCP := c.Idx%2 == 0
	type plan struct {
		name  string
		resp  messages.Response
		err   error
		work  time.Duration
		isErr bool
		text  string
	}
	gg := &gen{R: c.R, Valid: true, Edge: true}
	var g *rig
	mk := func() plan {
		w := []time.Duration{0, 0, ms, 50 * time.Second, 61 * time.Second, 10 * time.Minute, 3 * time.Hour}[c.R.IntN(7)]
		switch c.R.IntN(14) {
		case 12:
			e := g.refusal(gg.str())
			return plan{"error-of-send", nil, e, w, true, e.Error()}
		case 13, 0:
			e := gg.anError(gg.str())
			return plan{"error", nil, e, w, true, e.Error()}
		case 1:
			return plan{"error-empty", nil, errors.New(""), w, true, ""}
		case 2:
			return plan{"error-huge", nil, errors.New(strings.Repeat("y", 100000)), w, true, ""}
		case 3:
			return plan{"error-not-utf8", nil, errors.New("\xff\xfe\x00"), w, true, ""}
		case 4:
			return plan{"nil", nil, nil, w, true, ""}
		case 5:
			if isCP {
				return plan{"typed-nil", (*csresp.ClearCache)(nil), nil, w, true, ""}
			}
			return plan{"typed-nil", (*cpresp.Heartbeat)(nil), nil, w, true, ""}
		case 6:
			if isCP {
				return plan{"unencodable", &badCSResp{err: errors.New("cannot")}, nil, w, true, ""}
			}
			return plan{"unencodable", &badCPResp{err: errors.New("cannot")}, nil, w, true, ""}
		case 7:
			if isCP {
				return plan{"nan", &csresp.GetCompositeSchedule{Status: "Accepted", ChargingSchedule: &csresp.ChargingSchedule{ChargingRateUnit: "W", MinChargingRate: []float64{math.NaN(), math.Inf(1)}[c.R.IntN(2)], ChargingSchedulePeriod: []*csresp.ChargingSchedulePeriodItems{}}}, nil, w, true, ""}
			}
			return plan{"nan", notANumber(), nil, w, true, ""}
		case 9:
			t := []string{"both", "", " ", gg.str()}[c.R.IntN(4)]
			if isCP {
				return plan{"both", &csresp.ClearCache{Status: "Accepted"}, errors.New(t), w, true, t}
			}
			return plan{"both", &cpresp.Heartbeat{CurrentTime: baseTime}, errors.New(t), w, true, t}
		case 10:
			mine := opsOf(!isCP)
			return plan{"other-type", gg.resp(mine[c.R.IntN(len(mine))]), nil, w, false, ""}
		}
		return plan{"ok", nil, nil, w, false, ""}
	}
	var mu sync.Mutex
	var cur plan
	calls := 0
	fn := func(q messages.Request) (messages.Response, error) {
		mu.Lock()
		p := cur
		calls++
		mu.Unlock()
		time.Sleep(p.work)
		if p.name == "ok" || p.name == "other-type" {
			p.resp = clone(p.resp)
		}
		return p.resp, p.err
	}
	// a typed nil or a type of our own must reach the library as it is
	g = c.newRig(isCP, asCS(fn), asCP(fn))
	if g == nil {
		return
	}
	mine := opsOf(!isCP)
	state := ""
	for i := 0; i < 1+c.R.IntN(6); i++ {
		p := mk()
		if i == 0 && c.Idx < 48 { // every plan at least once
			for j := 0; j < 60 && p.name == "ok"; j++ {
				p = mk()
			}
		}
		o := mine[c.R.IntN(len(mine))]
		if p.name == "ok" {
			p.resp = gg.resp(o)
			if z := o.NewResp(); c.R.IntN(4) == 0 && !lacksRequired(z, schemaOf(o.Action+"Response")) {
				p.resp = z // nothing is set at all
			}
		}
		mu.Lock()
		cur = p
		before := calls
		mu.Unlock()
		id := fmt.Sprintf("x%d", i)
		g.pe.Call(id, o.Action, toJSON(gg.req(o), schemaOf(o.Action)))
		a := g.pe.Answer(p.work+2*time.Minute, id)
		settle(2 * time.Second)
		if n := len(answersTo(g.pe.Msgs())[id]); n > 1 {
			c.Violate("answers:"+p.name, "handler outcome %s: %d answers", p.name, n)
		}
		mu.Lock()
		if calls != before+1 {
			c.Violate("handler-calls:"+p.name, "handler ran %d times", calls-before)
		}
		mu.Unlock()
		switch {
		case a == nil:
			c.Violate("no-answer:"+p.name, "handler outcome %s after %v: the peer got no answer", p.name, p.work)
		case p.isErr && a.Type != 4:
			c.Violate("not-an-error:"+p.name, "handler outcome %s was answered with %s", p.name, a)
		case p.isErr && a.Code != "InternalError":
			c.Violate("error-code:"+p.name, "handler outcome %s was answered with %s", p.name, a)
		case p.isErr && p.text != "" && a.Desc != p.text:
			c.Violate("error-text:"+p.name, "handler error %q was answered with %s", p.text, a)
		case !p.isErr && a.Type != 3:
			c.Violate("not-a-result:"+p.name, "handler outcome %s was answered with %s", p.name, a)
		case p.name == "ok" || p.name == "other-type":
			name := strings.TrimPrefix(reflect.TypeOf(p.resp).Elem().Name(), "*") + "Response"
			if d := wireDiff(a.Payload, p.resp, schemaOf(name)); d != "" {
				c.Violate("answer:"+p.name, "handler returned %s, answered with %s: %s", show(p.resp), a, d)
			}
		}
		state += p.name + fmt.Sprint(p.work) + " "
		c.Count("handler_outcomes", 1)
	}
	o := mine[c.R.IntN(len(mine))]
	mu.Lock()
	cur = plan{name: "ok", resp: gg.resp(o)}
	mu.Unlock()
	id := "final"
	g.pe.Call(id, o.Action, toJSON(gg.req(o), schemaOf(o.Action)))
	if a := g.pe.Answer(time.Minute, id); a == nil || a.Type != 3 {
		c.Violate("dead-afterwards", "after %s a valid request got %v", state, a)
	}
	g.check()
	c.Eval("c21" + state)
}

// ---------------------------------------------------------------- C22

// c22Virtual: fragmentation, latency and large messages, in virtual time.
func c22Virtual(c *Case) {
	n := c.NewNet()
	nd := c.randNet(n)
	var mu sync.Mutex
	r := rngFor(c.Seed, c.Kind, c.Idx, "h")
	big := c.R.IntN(3) == 0
	pad := func() string {
		mu.Lock()
		defer mu.Unlock()
		if big {
			k := 1 << (5 + r.IntN(12))
			if strings.Contains(nd, "1") || strings.Contains(nd, "C") {
				k = 1 << (5 + r.IntN(8))
			}
			return strings.Repeat("é\n\"", k/4+1)
		}
		return ""
	}
	csys := c.startCS(n, asCS(func(q messages.Request) (messages.Response, error) {
		if dt, ok := q.(*cpreq.DataTransfer); ok {
			return &cpresp.DataTransfer{Data: dt.Data, Status: "Accepted"}, nil
		}
		if a, ok := q.(*cpreq.Authorize); ok {
			return nil, errors.New(a.IdTag)
		}
		return &cpresp.Heartbeat{CurrentTime: baseTime}, nil
	}))
	nCP := 1 + c.R.IntN(3)
	total := 0
	for i := 0; i < nCP; i++ {
		id := fmt.Sprintf("cp%d", i)
		p := c.mustCP(n, cpOpt{ID: id, Handler: asCP(func(q messages.Request) (messages.Response, error) {
			if dt, ok := q.(*csreq.DataTransfer); ok {
				return &csresp.DataTransfer{Data: dt.Data, Status: "Accepted"}, nil
			}
			if a, ok := q.(*csreq.UnlockConnector); ok {
				return nil, errors.New(strings.Repeat("é\n\"", a.ConnectorId))
			}
			return &csresp.ClearCache{Status: "Accepted"}, nil
		})})
		if p == nil {
			return
		}
		settle(300 * ms)
		svc, err := csys.GetServiceOf(id, ocpp.V16, "")
		if err != nil {
			c.Violate("no-service", "GetServiceOf: %v", err)
			return
		}
		for j := 0; j < 1+c.R.IntN(10); j++ {
			d := fmt.Sprint(i, ".", j, pad())
			total += 2
			s1 := c.sendCP(p, &cpreq.DataTransfer{VendorId: "v", Data: d})
			s2 := c.sendCS(svc, &csreq.DataTransfer{VendorId: "v", Data: d})
			if c.R.IntN(3) == 0 { // refused ones between them
				total += 2
				texts := []string{"", " ", "\n", "\"", "no", "[4]", strings.Repeat("é\\", 300)}
				e1 := c.sendCP(p, &cpreq.Authorize{IdTag: texts[c.R.IntN(len(texts))]})
				e2 := c.sendCS(svc, &csreq.UnlockConnector{ConnectorId: []int{0, 0, 1, 100}[c.R.IntN(4)]})
				c.Defer(func() {
					for _, s := range []*sent{e1, e2} {
						if !s.Within(5*time.Minute) || s.Err == nil {
							c.Violate("refused", "Send of a refused request: returned %v, error %v", s.Done(), s.Err)
						}
					}
				})
			}
			c.Defer(func() {
				for k, s := range []*sent{s1, s2} {
					if !s.Within(5 * time.Minute) {
						c.Violate("send-hangs", "Send of %d bytes did not return", len(d))
						return
					}
					var want any = &cpresp.DataTransfer{Data: d, Status: "Accepted"}
					if k == 1 {
						want = &csresp.DataTransfer{Data: d, Status: "Accepted"}
					}
					if s.Err != nil {
						c.Violate("send-error", "Send of %d bytes: %v", len(d), s.Err)
					} else if df := diffSent(want, s.Resp); df != "" {
						c.Violate("altered", "%d bytes came back differently: %.200s", len(d), df)
					}
				}
			})
		}
	}
	settle(5 * time.Minute)
	c22Wire(c, n, total)
	c.Eval(fmt.Sprint("virtual", nCP, nd, big))
}

// c22Wire: form of every message on every link, and IDs unique over all of them.
func c22Wire(c *Case, n *Net, total int) {
	ids := map[string]int{}
	calls, results := 0, 0
	for _, l := range n.Links() {
		t := c.checkLink(l, true, true)
		for _, m := range append(append([]*ocppMsg{}, t.UpMsgs...), t.DownMsgs...) {
			if m.Type == 2 {
				calls++
				ids[m.ID]++
				if ids[m.ID] > 1 {
					c.Violate("id-reused", "message ID %s used by several CALLs", m.ID)
				}
			} else {
				results++
			}
		}
	}
	if total >= 0 && (calls != total || results != total) {
		c.Violate("message-count", "%d Sends: %d CALLs and %d answers on the wire", total, calls, results)
	}
}

// c22Parallel: real threads, real scheduling.
func c22Parallel(c *Case) {
	n := c.NewNet()
	var mu sync.Mutex
	r := rngFor(c.Seed, c.Kind, c.Idx, "net")
	n.Chunk = func(bool) int { mu.Lock(); defer mu.Unlock(); return 1 + r.IntN(200) }
	pad := strings.Repeat("p", 1<<(c.R.IntN(13)))
	csys := c.startCS(n, asCS(func(q messages.Request) (messages.Response, error) {
		a, _ := q.(*cpreq.Authorize)
		if a == nil {
			return &cpresp.Heartbeat{CurrentTime: baseTime}, nil
		}
		return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{ParentIdTag: a.IdTag, Status: "Accepted"}}, nil
	}))
	nCP := 1 + c.R.IntN(4)
	workers := 2 + c.R.IntN(8)
	per := 4 + c.R.IntN(20)
	var wg sync.WaitGroup
	user := 0
	for i := 0; i < nCP; i++ {
		id := fmt.Sprintf("cp%d", i)
		p := c.mustCP(n, cpOpt{ID: id, Handler: asCP(func(q messages.Request) (messages.Response, error) {
			return &csresp.ChangeConfiguration{Status: q.(*csreq.ChangeConfiguration).Key}, nil
		})})
		if p == nil {
			return
		}
		var svc csService
		for k := 0; k < 2000; k++ {
			s, err := csys.GetServiceOf(id, ocpp.V16, "")
			if err == nil {
				svc = s
				break
			}
			time.Sleep(ms)
		}
		if svc == nil {
			c.Violate("no-service", "GetServiceOf keeps failing")
			return
		}
		for w := 0; w < workers; w++ {
			wg.Add(2)
			go func() {
				defer wg.Done()
				for k := 0; k < per; k++ {
					tag := fmt.Sprint(id, ".", w, ".", k, pad)
					resp, err := p.Send(&cpreq.Authorize{IdTag: tag})
					if err != nil {
						c.Violate("send-error", "Send failed: %v", err)
						return
					}
					if a, ok := resp.(*cpresp.Authorize); !ok || a.IdTagInfo == nil || a.IdTagInfo.ParentIdTag != tag {
						c.Violate("altered", "Authorize(%.50s…) returned %.200s", tag, show(resp))
					}
				}
			}()
			go func() {
				defer wg.Done()
				for k := 0; k < per; k++ {
					tag := fmt.Sprint(id, ".", w, ".", k, pad)
					resp, err := svc.Send(&csreq.ChangeConfiguration{Key: tag, Value: "v"})
					if err != nil {
						c.Violate("send-error", "Send failed: %v", err)
						return
					}
					if a, ok := resp.(*csresp.ChangeConfiguration); !ok || a.Status != tag {
						c.Violate("altered", "ChangeConfiguration(%.50s…) returned %.200s", tag, show(resp))
					}
				}
			}()
		}
		// applications may also write messages of their own through Connection()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < per; k++ {
				if k%2 == 0 {
					p.Connection().WriteJSON([]any{2, fmt.Sprint("user-", i, "-", k), "Heartbeat", map[string]any{}})
				} else {
					p.Connection().WriteMessage(1, []byte(fmt.Sprintf("[2,\"user-%d-%d\",\"Heartbeat\",{}]", i, k)))
				}
			}
		}()
		user += per
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(90 * time.Second):
		c.Inconclusive("parallel/%d: workers did not finish in 90 s of real time", c.Idx)
		return
	}
	want := nCP*workers*per*2 + user
	for k := 0; k < 5000; k++ { // the answers to the application's own messages
		results := 0
		for _, l := range n.Links() {
			for _, m := range parseWire(l.S2C.TapSegs(), false).Msgs {
				if x, _ := parseOCPP(m.Data); x != nil && x.Type == 3 && strings.HasPrefix(x.ID, "user-") {
					results++
				}
			}
		}
		if results >= user {
			break
		}
		time.Sleep(2 * ms)
	}
	c22Wire(c, n, want)
	c.Count("parallel_sends", int64(want))
	c.Eval(fmt.Sprint("parallel", nCP, workers, per))
}

// notANumber is a response that JSON can't carry.
func notANumber() messages.Response {
	x := &cpresp.BootNotification{Status: "Accepted"}
	if f := reflect.ValueOf(x).Elem().FieldByName("Interval"); f.CanFloat() {
		f.SetFloat(math.NaN())
		return x
	}
	return nil
}
