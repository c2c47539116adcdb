package verifharness

// C01 correlation, C02 bounded completion.

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"
	"sync"
	"time"

	ocpp "github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

const ms = time.Millisecond

// ---- tagged exchanges: every request carries a tag that its answer repeats

func tagCPReq(r *rand.Rand, tag string) cpreq.ChargePointRequest {
	switch r.IntN(5) {
	case 0:
		return &cpreq.Authorize{IdTag: tag}
	case 1:
		return &cpreq.StartTransaction{IdTag: tag, ConnectorId: 1, Timestamp: baseTime}
	case 2:
		return &cpreq.BootNotification{ChargePointModel: tag, ChargePointVendor: "v"}
	case 3:
		return &cpreq.StopTransaction{IdTag: tag, Timestamp: baseTime}
	}
	return &cpreq.Authorize{IdTag: "ERR" + tag}
}

func tagNum(tag string) int32 {
	n := int32(17)
	for _, b := range []byte(tag) {
		n = n*31 + int32(b)
	}
	if n == 0 {
		n = 1
	}
	return n
}

// answerCP is the answer to a tagged request of a charge point.
func answerCP(r messages.Request) (cpresp.ChargePointResponse, error) {
	switch q := r.(type) {
	case *cpreq.Authorize:
		if strings.HasPrefix(q.IdTag, "ERR") {
			return nil, errors.New("refused " + q.IdTag)
		}
		return &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{ParentIdTag: q.IdTag, Status: "Accepted"}}, nil
	case *cpreq.StartTransaction:
		x := &cpresp.StartTransaction{IdTagInfo: &cpresp.IdTagInfo{ParentIdTag: q.IdTag, Status: "Accepted"}}
		setInt(reflect.ValueOf(x).Elem().FieldByName("TransactionId"), int64(tagNum(q.IdTag)))
		return x, nil
	case *cpreq.BootNotification:
		return &cpresp.BootNotification{Status: "Accepted" + q.ChargePointModel, CurrentTime: baseTime, Interval: 5}, nil
	case *cpreq.StopTransaction:
		return &cpresp.StopTransaction{IdTagInfo: &cpresp.IdTagInfo{ParentIdTag: q.IdTag, Status: "Accepted"}}, nil
	case *cpreq.Heartbeat:
		return &cpresp.Heartbeat{CurrentTime: baseTime}, nil
	}
	return nil, errors.New("unexpected request")
}

func tagCSReq(r *rand.Rand, tag string) csreq.CentralSystemRequest {
	switch r.IntN(5) {
	case 0:
		return &csreq.ChangeConfiguration{Key: tag, Value: "v"}
	case 1:
		return &csreq.GetConfiguration{Key: []string{tag}}
	case 2:
		return &csreq.GetDiagnostics{Location: tag}
	case 3:
		return &csreq.ReserveNow{IdTag: tag, ExpiryDate: baseTime}
	}
	return &csreq.GetDiagnostics{Location: "ERR" + tag}
}

func answerCS(r messages.Request) (csresp.CentralSystemResponse, error) {
	switch q := r.(type) {
	case *csreq.ChangeConfiguration:
		return &csresp.ChangeConfiguration{Status: q.Key}, nil
	case *csreq.GetConfiguration:
		return &csresp.GetConfiguration{UnknownKey: q.Key}, nil
	case *csreq.GetDiagnostics:
		if strings.HasPrefix(q.Location, "ERR") {
			return nil, errors.New("refused " + q.Location)
		}
		return &csresp.GetDiagnostics{FileName: q.Location}, nil
	case *csreq.ReserveNow:
		return &csresp.ReserveNow{Status: q.IdTag}, nil
	case *csreq.UnlockConnector:
		return &csresp.UnlockConnector{Status: "Unlocked"}, nil
	case *csreq.ClearCache:
		return &csresp.ClearCache{Status: "Accepted"}, nil
	}
	return nil, errors.New("unexpected request")
}

// checkTagged compares the outcome of a Send with the answer to its request.
func (c *Case) checkTagged(s *sent, r messages.Request, key string) bool {
	var want any
	var werr error
	if q, ok := r.(cpreq.ChargePointRequest); ok {
		x, e := answerCP(q)
		werr = e
		if x != nil {
			want = x
		}
	} else {
		x, e := answerCS(r)
		werr = e
		if x != nil {
			want = x
		}
	}
	if werr != nil {
		if s.Err == nil {
			c.Violate(key+":error-lost", "%s %s was answered with error %q but Send returned %s", r.Action(), show(r), werr, show(s.Resp))
			return false
		}
		if !strings.Contains(s.Err.Error(), werr.Error()) {
			c.Violate(key+":wrong-error", "%s %s was answered with error %q but Send returned error %q", r.Action(), show(r), werr, s.Err)
			return false
		}
		return true
	}
	if s.Err != nil {
		c.Violate(key+":unexpected-error", "%s %s was answered with %s but Send returned error %q", r.Action(), show(r), show(want), s.Err)
		return false
	}
	if d := diff(want, s.Resp); d != "" {
		c.Violate(key+":wrong-response", "%s %s was answered with %s but Send returned %s (%s)", r.Action(), show(r), show(want), show(s.Resp), d)
		return false
	}
	return true
}

// randNet sets random latency and fragmentation.
func (c *Case) randNet(n *Net) string {
	var mu sync.Mutex
	r := rngFor(c.Seed, c.Kind, c.Idx, "net", c.netIndex(n))
	desc := ""
	switch c.R.IntN(4) {
	case 1:
		n.Latency = func(bool) time.Duration { return 3 * ms }
		desc += "L"
	case 2, 3:
		n.Latency = func(bool) time.Duration {
			mu.Lock()
			defer mu.Unlock()
			return time.Duration(r.IntN(50)) * ms
		}
		desc += "J"
	}
	switch c.R.IntN(3) {
	case 1:
		n.Chunk = func(bool) int { return 1 }
		desc += "1"
	case 2:
		n.Chunk = func(bool) int {
			mu.Lock()
			defer mu.Unlock()
			return 1 + r.IntN(40)
		}
		desc += "C"
	}
	return desc
}

func init() {
	register("C01", func(r *Run) {
		r.Cases("pair", r.N(240, 6000), c01Pair)
		r.Cases("scripted-cs", r.N(300, 8000), c01ScriptedCS)
		r.Cases("scripted-cp", r.N(300, 8000), c01ScriptedCP)
		r.Cases("slow", r.N(60, 1500), c01Slow)
		r.Cases("same", r.N(100, 2500), c01Same)
		r.Cases("many", 2, cManySends)
		r.Cases("crowd", r.N(2, 20), cCrowd)
	})
	register("C02", func(r *Run) {
		r.Cases("delays", r.N(300, 6000), c02Delays)
		r.Cases("loss", r.N(200, 4000), c02Loss)
		r.Cases("late", r.N(200, 4000), c02Late)
		r.Cases("stalled", r.N(24, 200), c02Stalled)
		r.Cases("exact", r.N(100, 2000), c02Exact)
		r.Cases("last-word", r.N(100, 2000), c02LastWord)
		r.Cases("swift", r.N(40, 800), c02Swift)
		r.Cases("long", r.N(6, 120), c02Long)
		r.Cases("dropped", r.N(200, 4000), c02Dropped)
		r.Cases("idle", r.N(100, 2000), c02Idle)
		r.Cases("crowd", r.N(2, 20), cCrowd)
	})
}

// c01Pair: several real charge points and a real central system, many
// concurrent Sends in both directions.
func c01Pair(c *Case) {
	n := c.NewNet()
	nd := c.randNet(n)
	var mu sync.Mutex
	r := rngFor(c.Seed, c.Kind, c.Idx, "h")
	delay := func() {
		mu.Lock()
		d := time.Duration(r.IntN(4)) * time.Duration(r.IntN(200)) * ms
		mu.Unlock()
		if d > 0 {
			time.Sleep(d)
		}
	}
	handled := map[string]int{}
	csys := c.startCS(n, func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		mu.Lock()
		handled[show(q)]++
		mu.Unlock()
		delay()
		return answerCP(q)
	})
	type out struct {
		s *sent
		r messages.Request
	}
	var outs []out
	nCP := 1 + c.R.IntN(4)
	k := 1 + c.R.IntN(12)
	for i := 0; i < nCP; i++ {
		id := fmt.Sprintf("cp%d", i)
		p := c.mustCP(n, cpOpt{ID: id, Handler: func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			mu.Lock()
			handled[show(q)]++
			mu.Unlock()
			delay()
			return answerCS(q)
		}})
		if p == nil {
			return
		}
		settle(200 * ms)
		svc, err := csys.GetServiceOf(id, ocpp.V16, "")
		if err != nil {
			c.Violate("no-service", "GetServiceOf(%s) after connecting: %v", id, err)
			return
		}
		for j := 0; j < k; j++ {
			q := tagCPReq(c.R, fmt.Sprintf("u%d.%d", i, j))
			outs = append(outs, out{c.sendCP(p, q), q})
			q2 := tagCSReq(c.R, fmt.Sprintf("d%d.%d", i, j))
			outs = append(outs, out{c.sendCS(svc, q2), q2})
			if c.R.IntN(3) == 0 {
				time.Sleep(time.Duration(c.R.IntN(30)) * ms)
			}
		}
	}
	for _, o := range outs {
		if !o.s.Within(5 * time.Minute) {
			c.Violate("send-hangs", "Send(%s) did not return within 5 minutes", show(o.r))
			return
		}
		c.checkTagged(o.s, o.r, "pair")
		c.Count("sends_checked", 1)
	}
	mu.Lock()
	for s, k := range handled {
		if k != 1 {
			c.Violate("handled-twice", "request %s was handled %d times", s, k)
		}
	}
	if len(handled) != len(outs) {
		c.Violate("handled-count", "%d distinct requests sent, %d handled", len(outs), len(handled))
	}
	mu.Unlock()
	for _, l := range n.Links() {
		c.checkLink(l, true, true)
	}
	c.Eval(fmt.Sprint("pair", nCP, k, nd))
}

// step of a scripted reply sequence
type scripted struct {
	id   string
	text string
	at   time.Duration
}

// c01ScriptedCS: a real charge point against a central system that answers in
// any order, with duplicates, foreign and unknown IDs and colliding CALL IDs.
func c01ScriptedCS(c *Case) {
	n := c.NewNet()
	nd := c.randNet(n)
	s := c.rawCS(n)
	p := c.mustCP(n, cpOpt{ID: "cp", Handler: func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) { return answerCS(q) }})
	if p == nil {
		return
	}
	pe := s.Peer(0, time.Minute)
	k := 1 + c.R.IntN(10)
	var reqs []messages.Request
	var outs []*sent
	for i := 0; i < k; i++ {
		q := tagCPReq(c.R, fmt.Sprintf("t%d", i))
		reqs = append(reqs, q)
		outs = append(outs, c.sendCP(p, q))
	}
	scriptedReplies(c, pe, k, "csreq")
	for i, o := range outs {
		if !o.Within(2 * time.Minute) {
			c.Violate("send-hangs", "Send(%s) did not return", show(reqs[i]))
			return
		}
		c.checkTagged(o, reqs[i], "scripted")
		c.Count("sends_checked", 1)
	}
	probeSendCP(c, p, pe)
	for _, l := range n.Links() {
		c.checkLink(l, true, false)
	}
	c.Eval(fmt.Sprint("scs", k, nd, c.Idx%64))
}

// c01ScriptedCP: the central system against several scripted charge points.
func c01ScriptedCP(c *Case) {
	n := c.NewNet()
	nd := c.randNet(n)
	csys := c.startCS(n, func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		return answerCP(q)
	})
	nCP := 1 + c.R.IntN(3)
	k := 1 + c.R.IntN(6)
	var peers []*peer
	var svcs []csService
	for i := 0; i < nCP; i++ {
		id := fmt.Sprintf("cp%d", i)
		pe, err := c.rawCP(n, id)
		if err != nil {
			c.Violate("dial", "scripted charge point could not connect: %v", err)
			return
		}
		settle(300 * ms)
		svc, err := csys.GetServiceOf(id, ocpp.V16, "")
		if err != nil {
			c.Violate("no-service", "%v", err)
			return
		}
		peers = append(peers, pe)
		svcs = append(svcs, svc)
	}
	var reqs []messages.Request
	var outs []*sent
	for i := 0; i < nCP; i++ {
		for j := 0; j < k; j++ {
			q := tagCSReq(c.R, fmt.Sprintf("t%d.%d", i, j))
			reqs = append(reqs, q)
			outs = append(outs, c.sendCS(svcs[i], q))
		}
	}
	// replies with another connection's IDs first
	settle(500 * ms)
	for i, pe := range peers {
		for j, other := range peers {
			if i != j {
				for _, m := range other.Msgs() {
					if m.Type == 2 && c.R.IntN(2) == 0 {
						pe.Reply(m.ID, map[string]any{"status": "stolen"})
						pe.Error(m.ID, "GenericError", "stolen")
					}
				}
			}
		}
	}
	var done []*Op
	for _, pe := range peers {
		sub := rand.New(rand.NewPCG(c.R.Uint64(), 1))
		done = append(done, c.Go(func() { scriptedRepliesR(c, sub, pe, k, "cpreq") }))
	}
	for i, o := range outs {
		if !o.Within(2 * time.Minute) {
			c.Violate("send-hangs", "Send(%s) did not return", show(reqs[i]))
			return
		}
		c.checkTagged(o, reqs[i], "scripted")
		c.Count("sends_checked", 1)
	}
	for _, d := range done {
		d.Within(time.Minute)
	}
	for i := range peers {
		probeSendCS(c, svcs[i], peers[i])
	}
	for _, l := range n.Links() {
		c.checkLink(l, false, true)
	}
	c.Eval(fmt.Sprint("scp", nCP, k, nd, c.Idx%64))
}

// decodeTagged rebuilds a tagged request from a CALL on the wire and answers it.
func replyText(m *ocppMsg) string {
	q, d := decodeCall(m, true)
	if q == nil {
		q, d = decodeCall(m, false)
	}
	if q == nil {
		return fmt.Sprintf("[4,%s,\"GenericError\",%s,{}]", jsonText(m.ID), jsonText("harness could not read "+d))
	}
	var resp any
	var err error
	if x, ok := q.(cpreq.ChargePointRequest); ok {
		a, e := answerCP(x)
		err = e
		if a != nil {
			resp = a
		}
	} else {
		a, e := answerCS(q)
		err = e
		if a != nil {
			resp = a
		}
	}
	if err != nil {
		code := "InternalError"
		if len(m.ID) > 0 { // any code, also one that says nothing
			codes := []string{"InternalError", "InternalError", "GenericError", "NotSupported", "ProtocolError", "SecurityError", "VendorError", "", "OccurrenceConstraintViolation"}
			code = codes[int(m.ID[len(m.ID)-1])%len(codes)]
		}
		return fmt.Sprintf("[4,%s,%s,%s,{\"a\":1}]", jsonText(m.ID), jsonText(code), jsonText(err.Error()))
	}
	return fmt.Sprintf("[3,%s,%s]", jsonText(m.ID), jsonText(toJSON(resp, schemaOf(m.Action+"Response"))))
}

func scriptedReplies(c *Case, pe *peer, k int, collide string) {
	scriptedRepliesR(c, c.R, pe, k, collide)
}

// scriptedRepliesR answers k calls in random order with noise in between.
func scriptedRepliesR(c *Case, r *rand.Rand, pe *peer, k int, collide string) {
	var calls []*ocppMsg
	all := r.IntN(3) > 0 // collect everything first, or answer in waves
	answered := map[string]bool{}
	deadline := time.Now().Add(50 * time.Second)
	collidedIDs := 0
	for len(answered) < k && time.Now().Before(deadline) {
		calls = calls[:0]
		for _, m := range pe.Msgs() {
			if m.Type == 2 && !answered[m.ID] {
				calls = append(calls, m)
			}
		}
		if len(calls) == 0 || all && len(calls)+len(answered) < k {
			time.Sleep(20 * ms)
			continue
		}
		r.Shuffle(len(calls), func(i, j int) { calls[i], calls[j] = calls[j], calls[i] })
		take := len(calls)
		if !all {
			take = 1 + r.IntN(len(calls))
		}
		for _, m := range calls[:take] {
			switch r.IntN(8) {
			case 0: // an ID nobody used
				pe.Reply("00000000-0000-0000-0000-000000000000", map[string]any{"status": "x"})
			case 1: // an ID that only differs in case or length
				pe.Reply(strings.ToUpper(m.ID)+"x", map[string]any{"status": "x"})
				pe.Error(m.ID[:len(m.ID)-1], "GenericError", "x")
				for _, id := range []string{strings.ToUpper(m.ID), strings.ToLower(m.ID), " " + m.ID, m.ID + " ", "{" + m.ID + "}", "urn:uuid:" + m.ID, strings.ReplaceAll(m.ID, "-", ""), m.ID + "\x00", m.ID + ".", "0" + m.ID} {
					if id != m.ID && r.IntN(3) == 0 {
						pe.Error(id, "GenericError", "x")
					}
				}
			case 2: // a CALL of ours with the very same ID
				if collide == "csreq" {
					pe.Call(m.ID, "ClearCache", map[string]any{})
				} else {
					pe.Call(m.ID, "Heartbeat", map[string]any{})
				}
				collidedIDs++
			case 3:
				pe.Text("[")
			}
			t := replyText(m)
			pe.Text(t)
			answered[m.ID] = true
			for d := r.IntN(3); d > 0; d-- { // duplicates, also contradicting ones
				if r.IntN(2) == 0 {
					pe.Text(t)
				} else {
					pe.Reply(m.ID, map[string]any{"status": "duplicate"})
				}
			}
			if r.IntN(3) == 0 {
				time.Sleep(time.Duration(r.IntN(400)) * ms)
			}
		}
		if r.IntN(2) == 0 && len(answered) > 1 { // replay old replies
			for id := range answered {
				pe.Error(id, "GenericError", "replayed")
			}
		}
	}
	c.Count("id_collisions_injected", int64(collidedIDs))
}

// probeSendCP: the connection still delivers a reply to a charge point's Send
// and still serves the peer's CALLs.
func probeSendCP(c *Case, p *realCP, pe *peer) {
	tag := fmt.Sprintf("probe%d", len(pe.Msgs()))
	q := &cpreq.Authorize{IdTag: tag}
	s := c.sendCP(p, q)
	m := pe.Wait(20*time.Second, func(m *ocppMsg) bool {
		return m.Type == 2 && m.Action == "Authorize" && strings.Contains(string(m.Payload), `"`+tag+`"`)
	})
	if m == nil {
		c.Violate("probe:not-sent", "probe Send did not put its CALL on the wire")
		return
	}
	pe.Text(replyText(m))
	if !s.Within(20 * time.Second) {
		c.Violate("probe:reply-not-delivered", "probe Send did not get its reply: the connection no longer delivers replies")
		return
	}
	c.checkTagged(s, q, "probe")
	id := "probe-" + tag
	pe.Call(id, "ClearCache", map[string]any{})
	a := pe.Answer(20*time.Second, id)
	if a == nil {
		c.Violate("probe:call-not-served", "the charge point no longer answers CALLs")
	} else if a.Type != 3 {
		c.Violate("probe:call-failed", "the charge point answered a valid CALL with %s", a)
	}
	c.Count("probes", 1)
}

func probeSendCS(c *Case, svc csService, pe *peer) {
	tag := fmt.Sprintf("probe%d", len(pe.Msgs()))
	q := &csreq.ChangeConfiguration{Key: tag, Value: "v"}
	s := c.sendCS(svc, q)
	m := pe.Wait(20*time.Second, func(m *ocppMsg) bool {
		return m.Type == 2 && m.Action == "ChangeConfiguration" && strings.Contains(string(m.Payload), `"`+tag+`"`)
	})
	if m == nil {
		c.Violate("probe:not-sent", "probe Send did not put its CALL on the wire")
		return
	}
	pe.Text(replyText(m))
	if !s.Within(20 * time.Second) {
		c.Violate("probe:reply-not-delivered", "probe Send did not get its reply: the connection no longer delivers replies")
		return
	}
	c.checkTagged(s, q, "probe")
	id := "probe-" + tag
	pe.Call(id, "Heartbeat", map[string]any{})
	a := pe.Answer(20*time.Second, id)
	if a == nil {
		c.Violate("probe:call-not-served", "the central system no longer answers CALLs on this connection")
	} else if a.Type != 3 {
		c.Violate("probe:call-failed", "the central system answered a valid CALL with %s", a)
	}
	c.Count("probes", 1)
}

// rig is a connection between one real side and one scripted side.
type rig struct {
	c    *Case
	n    *Net
	cpp  *realCP
	svc  csService
	csys cs.CentralSystem
	pe   *peer
	raw  *rawCS
	isCP bool // the real side is the charge point
}

func (c *Case) newRig(isCP bool, cph csHandler, csh cpHandler) *rig {
	g := &rig{c: c, n: c.NewNet(), isCP: isCP}
	if cph == nil {
		cph = func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
			return answerCP(q)
		}
	}
	if csh == nil {
		csh = func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) { return answerCS(q) }
	}
	if isCP {
		g.raw = c.rawCS(g.n)
		g.cpp = c.mustCP(g.n, cpOpt{ID: "cp", Handler: csh})
		if g.cpp == nil {
			return nil
		}
		g.pe = g.raw.Peer(0, time.Minute)
	} else {
		g.csys = c.startCS(g.n, cph)
		pe, err := c.rawCP(g.n, "cp")
		if err != nil {
			c.Violate("dial", "a charge point could not connect: %v", err)
			return nil
		}
		g.pe = pe
		settle(10 * ms)
		svc, err := g.csys.GetServiceOf("cp", ocpp.V16, "")
		if err != nil {
			c.Violate("no-service", "GetServiceOf of a connected charge point: %v", err)
			return nil
		}
		g.svc = svc
	}
	return g
}

func (g *rig) send(tag string) (*sent, messages.Request) {
	if g.isCP {
		q := tagCPReq(g.c.R, tag)
		return g.c.sendCP(g.cpp, q), q
	}
	q := tagCSReq(g.c.R, tag)
	return g.c.sendCS(g.svc, q), q
}

func (g *rig) probe() {
	if g.isCP {
		probeSendCP(g.c, g.cpp, g.pe)
	} else {
		probeSendCS(g.c, g.svc, g.pe)
	}
}

func (g *rig) check() {
	for _, l := range g.n.Links() {
		g.c.checkLink(l, g.isCP, !g.isCP)
	}
}

const reqTimeout = 60 * time.Second

// c02Delays: each request is answered after its own delay (or never).
func c02Delays(c *Case) {
	g := c.newRig(c.Idx%2 == 0, nil, nil)
	if g == nil {
		return
	}
	delays := []time.Duration{0, ms, time.Second, 30 * time.Second, 59 * time.Second, 59*time.Second + 900*ms, 60*time.Second + 100*ms, 61 * time.Second, 90 * time.Second, 200 * time.Second, -1}
	k := 1 + c.R.IntN(6)
	if c.Idx%5 == 0 {
		k = len(delays)
	}
	type rec struct {
		s     *sent
		q     messages.Request
		delay time.Duration
		kind  int
	}
	var recs []rec
	for i := 0; i < k; i++ {
		d := delays[c.R.IntN(len(delays))]
		if k == len(delays) {
			d = delays[i]
		}
		kind := c.R.IntN(6)
		had := len(g.pe.Msgs())
		s, q := g.send(fmt.Sprintf("t%d", i))
		m := g.pe.Wait(time.Second, func(m *ocppMsg) bool { return m.Type == 2 && len(g.pe.msgs) > had && m == g.pe.msgs[len(g.pe.msgs)-1] })
		if m == nil {
			c.Violate("not-sent", "Send(%s) put nothing on the wire", show(q))
			return
		}
		recs = append(recs, rec{s, q, d, kind})
		if d >= 0 {
			text := replyText(m)
			pe := g.pe
			id := m.ID
			go func() {
				time.Sleep(d)
				pe.Text(text)
				switch kind {
				case 1:
					pe.Text(text)
				case 2:
					time.Sleep(65 * time.Second)
					pe.Text(text)
				case 3:
					pe.Error(id, "GenericError", "late")
				}
			}()
		}
		if c.R.IntN(3) == 0 {
			time.Sleep(time.Duration(c.R.IntN(20)) * time.Second)
		}
	}
	state := ""
	for _, r := range recs {
		state += fmt.Sprint(r.delay, r.kind, " ")
		if !r.s.Within(5 * time.Minute) {
			c.Violate("send-hangs", "Send(%s) with the reply due after %v did not return in 5 minutes", show(r.q), r.delay)
			return
		}
		took := r.s.Took()
		c.Logf("reply after %v: Send took %v, err %v", r.delay, took, r.s.Err)
		if r.delay >= 0 && r.delay < reqTimeout {
			if took > r.delay+time.Second {
				c.Violate("late-return", "the reply to %s arrived after %v but Send returned after %v (err %v)", show(r.q), r.delay, took, r.s.Err)
				continue
			}
			c.checkTagged(r.s, r.q, "delay")
		} else {
			if r.s.Err == nil {
				c.Violate("no-timeout", "no reply to %s within 60 s, but Send returned %s after %v", show(r.q), show(r.s.Resp), took)
			} else if took < reqTimeout-500*ms {
				c.Violate("early-timeout", "Send(%s) gave up after %v: %v", show(r.q), took, r.s.Err)
			} else if took > reqTimeout+2*time.Second {
				c.Violate("late-timeout", "Send(%s) gave up only after %v: %v", show(r.q), took, r.s.Err)
			}
		}
		c.Count("sends_checked", 1)
	}
	time.Sleep(300 * time.Second)
	g.probe()
	g.check()
	c.Eval("delays " + state)
}

// c02Loss: the connection ends while requests are outstanding.
func c02Loss(c *Case) {
	g := c.newRig(c.Idx%2 == 0, nil, nil)
	if g == nil {
		return
	}
	k := 1 + c.R.IntN(5)
	var ss []*sent
	var qs []messages.Request
	for i := 0; i < k; i++ {
		s, q := g.send(fmt.Sprintf("t%d", i))
		ss, qs = append(ss, s), append(qs, q)
	}
	settle(time.Duration(c.R.IntN(40000)) * ms)
	var replied map[string]bool = map[string]bool{}
	for _, m := range g.pe.Msgs() {
		if m.Type == 2 && c.R.IntN(4) == 0 {
			g.pe.Text(replyText(m))
			replied[m.ID] = true
		}
	}
	settle(100 * ms)
	nDone := 0
	before := make([]bool, len(ss))
	for i, s := range ss {
		if before[i] = s.Done(); before[i] {
			nDone++
		}
	}
	if nDone != len(replied) {
		c.Violate("replied-count", "%d replies sent, %d Sends returned", len(replied), nDone)
	}
	how := c.R.IntN(5)
	l := g.n.Links()[0]
	lost := time.Now()
	switch how {
	case 0:
		l.Reset()
	case 1:
		g.pe.Close()
	case 2: // close frame
		g.pe.Raw(8, []byte{0x03, 0xe8})
		settle(50 * ms)
		g.pe.Close()
	case 3: // cut in the middle of the next message towards the real side
		h := l.S2C
		if !g.isCP {
			h = l.C2S
		}
		h.CutAfter(1 + c.R.IntN(20))
		g.pe.Call("cut", "ClearCache", map[string]any{})
	case 4: // the local side closes
		if g.isCP {
			g.cpp.Connection().Close()
		} else {
			l.Reset()
		}
	}
	for i, s := range ss {
		if !s.Within(2 * time.Minute) {
			c.Violate("send-hangs", "Send(%s) did not return after the connection was lost", show(qs[i]))
			return
		}
		if !before[i] {
			if s.Err == nil {
				c.Violate("success-after-loss", "Send(%s) returned %s although its connection was lost before any reply", show(qs[i]), show(s.Resp))
			} else if s.At.Sub(lost) > 10*time.Second {
				c.Violate("slow-after-loss", "the connection was lost (way %d) but the pending Send(%s) returned only %v later: %v", how, show(qs[i]), s.At.Sub(lost), s.Err)
			}
		} else {
			c.checkTagged(s, qs[i], "loss")
		}
		c.Count("sends_checked", 1)
	}
	// Sends through the dead connection fail at once.
	if !g.isCP {
		t0 := time.Now()
		s := c.sendCS(g.svc, &csreq.ClearCache{})
		if !s.Within(2*time.Minute) || s.Err == nil || s.At.Sub(t0) > 10*time.Second {
			c.Violate("send-on-closed", "Send on a lost connection: done=%v err=%v after %v", s.Done(), s.Err, time.Since(t0))
		}
		c.Count("sends_checked", 1)
	} else {
		// the charge point reconnects; probe the new connection
		if p := g.raw.Peer(1, 2*time.Minute); p != nil {
			settle(100 * ms)
			g.pe = p
			g.probe()
		}
	}
	g.check()
	c.Eval(fmt.Sprint("loss ", how, k, len(replied), g.isCP))
}

// c02Late: timeouts first, then a storm of late, duplicate and malformed
// replies; the connection must still work in both directions.
func c02Late(c *Case) {
	g := c.newRig(c.Idx%2 == 0, nil, nil)
	if g == nil {
		return
	}
	k := 1 + c.R.IntN(4)
	var ss []*sent
	for i := 0; i < k; i++ {
		s, _ := g.send(fmt.Sprintf("t%d", i))
		ss = append(ss, s)
	}
	settle(time.Second)
	calls := g.pe.Msgs()
	var storm []string
	for _, m := range calls {
		if m.Type != 2 {
			continue
		}
		good := replyText(m)
		id := jsonText(m.ID)
		storm = append(storm, good, good, "[3,"+id+"]", "[3,"+id+",null]", "[3,"+id+",[]]", "[3,"+id+",{\"bogus\":1}]",
			"[4,"+id+"]", "[4,"+id+",\"x\"]", "[4,"+id+",\"GenericError\",\"d\"]", "[4,"+id+",\"GenericError\",\"d\",null]", "[3,null,{}]", "[3,\"nobody\",{}]", "[4,\"nobody\",\"GenericError\",\"\",{}]")
	}
	c.R.Shuffle(len(storm), func(i, j int) { storm[i], storm[j] = storm[j], storm[i] })
	when := c.R.IntN(3)
	if when == 0 { // storm after the timeout
		settle(61 * time.Second)
	}
	extra, q := g.send("during")
	for i, t := range storm {
		if when == 1 && i == len(storm)/2 {
			settle(61 * time.Second)
		}
		g.pe.Text(t)
	}
	settle(100 * ms)
	m := g.pe.Wait(time.Second, func(m *ocppMsg) bool { return m.Type == 2 && strings.Contains(m.Raw, "during") })
	if m == nil {
		c.Violate("not-sent", "Send(%s) put nothing on the wire", show(q))
		return
	}
	inTime := time.Since(extra.Start) < 59*time.Second
	g.pe.Text(replyText(m))
	if inTime {
		if !extra.Within(5 * time.Second) {
			c.Violate("reply-not-delivered", "after a storm of late and malformed replies (%d frames) the reply to an outstanding Send was not delivered", len(storm))
		} else {
			c.checkTagged(extra, q, "storm")
		}
	}
	for _, s := range ss {
		if !s.Within(3 * time.Minute) {
			c.Violate("send-hangs", "a Send never returned during a storm of malformed replies")
			return
		}
		if s.Took() > reqTimeout+2*time.Second {
			c.Violate("late-timeout", "a Send returned only after %v", s.Took())
		}
	}
	c.Count("sends_checked", int64(len(ss)+1))
	settle(100 * ms)
	g.probe()
	g.check()
	c.Eval(fmt.Sprint("late ", when, k, g.isCP, c.Idx%16))
}

// c02Stalled: the peer stops reading and the transport's buffers are full, or
// the network swallows everything.
func c02Stalled(c *Case) {
	g := c.newRig(c.Idx%2 == 0, nil, nil)
	if g == nil {
		return
	}
	l := g.n.Links()[0]
	h := l.C2S
	if !g.isCP {
		h = l.S2C
	}
	mode := (c.Idx / 2) % 3
	switch mode {
	case 0: // swallowed
		l.C2S.Hole(true)
		l.S2C.Hole(true)
	case 1: // window full
		h.Hold(true)
		h.SetCapacity(64)
		first, _ := g.send("first")
		_ = first
		settle(ms)
	case 2: // held back, delivered after the timeout
		h.Hold(true)
	}
	s, q := g.send("stalled")
	if !s.Within(5 * time.Minute) {
		c.Violate("send-hangs:stalled", "the peer stopped reading (mode %d): Send(%s) had not returned after 5 minutes", mode, show(q))
		return
	}
	if s.Err == nil {
		c.Violate("success-stalled", "Send(%s) succeeded on a stalled connection", show(q))
	}
	if s.Took() > 2*reqTimeout+5*time.Second {
		c.Violate("late-timeout:stalled", "Send on a stalled connection took %v", s.Took())
	}
	c.Count("sends_checked", 1)
	if mode == 2 {
		h.Hold(false)
		settle(time.Second)
		g.probe()
	}
	c.Eval(fmt.Sprint("stalled ", mode, g.isCP))
}
