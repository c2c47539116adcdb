package verifharness

// More of C01-C04 and C22: slow and exactly timed replies, last words, long
// streams of rubbish, floods, repeated message IDs on new connections, large messages.

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	ocpp "github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// callsOf counts the CALLs a peer received for the request with the given tag.
func callsOf(pe *peer, tag string) (n int) {
	for _, m := range pe.Msgs() {
		if m.Type == 2 && (strings.Contains(string(m.Payload), `"`+tag+`"`) || strings.Contains(string(m.Payload), `"ERR`+tag+`"`)) {
			n++
		}
	}
	return
}

// c01Slow: replies take any time up to the timeout, some never come; every
// request is on the wire once and gets its own reply.
func c01Slow(c *Case) {
	g := c.newRig(c.Idx%2 == 0, nil, nil)
	if g == nil {
		return
	}
	nd := c.randNet(g.n)
	k := 1 + c.R.IntN(10)
	type rec struct {
		s   *sent
		q   messages.Request
		tag string
		d   time.Duration
	}
	var recs []*rec
	byTag := map[string]*rec{}
	r := rngFor(c.Seed, c.Kind, c.Idx, "w")
	var mu sync.Mutex
	g.pe.setOnMsg(func(p *peer, m *ocppMsg) {
		if m.Type != 2 {
			return
		}
		mu.Lock()
		var d time.Duration = -1
		for tag, x := range byTag {
			if strings.Contains(string(m.Payload), `"`+tag+`"`) || strings.Contains(string(m.Payload), `"ERR`+tag+`"`) {
				d = x.d
			}
		}
		dup := r.IntN(4)
		mu.Unlock()
		if d < 0 {
			return
		}
		text := replyText(m)
		c.Go(func() {
			time.Sleep(d)
			p.Text(text)
			if dup == 0 {
				p.Text(text)
			}
		})
	})
	for i := 0; i < k; i++ {
		tag := fmt.Sprintf("w%d", i)
		d := time.Duration(c.R.IntN(57000)) * ms
		if c.R.IntN(5) == 0 {
			d = -1
		}
		x := &rec{tag: tag, d: d}
		mu.Lock()
		byTag[tag] = x
		mu.Unlock()
		x.s, x.q = g.send(tag)
		recs = append(recs, x)
		if c.R.IntN(2) == 0 {
			time.Sleep(time.Duration(c.R.IntN(20000)) * ms)
		}
	}
	for _, x := range recs {
		if !x.s.Within(4 * time.Minute) {
			c.Violate("send-hangs", "Send(%s) did not return", show(x.q))
			return
		}
		if x.d >= 0 {
			c.checkTagged(x.s, x.q, "slow")
		} else if x.s.Err == nil {
			c.Violate("unanswered-success", "Send(%s) was never answered and returned %s", show(x.q), show(x.s.Resp))
		}
		c.Count("sends_checked", 1)
	}
	settle(5 * time.Minute)
	for _, x := range recs {
		if n := callsOf(g.pe, x.tag); n != 1 {
			c.Violate("times-on-wire", "the request %s is on the wire %d times", show(x.q), n)
		}
	}
	g.probe()
	g.check()
	c.Eval(fmt.Sprint("slow ", k, nd, g.isCP, c.Idx%32))
}

// c02Exact: replies that arrive in the very instant of the timeout. Either
// outcome is right, but the connection must go on working.
func c02Exact(c *Case) {
	g := c.newRig(c.Idx%2 == 0, nil, nil)
	if g == nil {
		return
	}
	k := 1 + c.R.IntN(12)
	var ss []*sent
	var qs []messages.Request
	start := time.Now()
	for i := 0; i < k; i++ {
		s, q := g.send(fmt.Sprintf("e%d", i))
		ss, qs = append(ss, s), append(qs, q)
	}
	var calls []*ocppMsg
	g.pe.Wait(ms, func(m *ocppMsg) bool { return false })
	for _, m := range g.pe.Msgs() {
		if m.Type == 2 {
			calls = append(calls, m)
		}
	}
	if len(calls) != k {
		c.Violate("not-sent", "%d Sends put %d CALLs on the wire", k, len(calls))
		return
	}
	off := time.Duration(c.R.IntN(3)-1) * time.Duration(c.R.IntN(2)) * time.Nanosecond
	together := c.R.IntN(2) == 0
	dup := 1 + c.R.IntN(3)
	for _, m := range calls {
		text := replyText(m)
		if together {
			continue
		}
		c.Go(func() {
			time.Sleep(time.Until(start.Add(reqTimeout + off)))
			for i := 0; i < dup; i++ {
				g.pe.Text(text)
			}
		})
	}
	if together {
		time.Sleep(time.Until(start.Add(reqTimeout + off)))
		for _, m := range calls {
			g.pe.Text(replyText(m))
		}
	}
	replied := 0
	for i, s := range ss {
		if !s.Within(2 * time.Minute) {
			c.Violate("send-hangs", "the reply arrived in the instant of the timeout: Send(%s) did not return", show(qs[i]))
			return
		}
		if s.Took() > reqTimeout+2*time.Second {
			c.Violate("late-timeout", "Send(%s) returned after %v", show(qs[i]), s.Took())
		}
		if s.Err == nil || strings.Contains(show(qs[i]), "ERR") && strings.Contains(s.Err.Error(), "refused") {
			replied++
			c.checkTagged(s, qs[i], "exact")
		}
		c.Count("sends_checked", 1)
	}
	settle(time.Second)
	g.probe()
	g.check()
	c.Count("replies_at_the_timeout", int64(k))
	c.Eval(fmt.Sprint("exact ", k, replied, off, together, g.isCP))
}

// c02LastWord: the peer replies and closes the connection at once. What it
// said before is delivered, everything else fails promptly.
func c02LastWord(c *Case) {
	g := c.newRig(c.Idx%2 == 0, nil, nil)
	if g == nil {
		return
	}
	if c.R.IntN(2) == 0 {
		c.randNet(g.n)
	}
	k := 1 + c.R.IntN(6)
	var ss []*sent
	var qs []messages.Request
	for i := 0; i < k; i++ {
		s, q := g.send(fmt.Sprintf("l%d", i))
		ss, qs = append(ss, s), append(qs, q)
	}
	settle(5 * time.Second)
	answered := map[int]bool{}
	for _, m := range g.pe.Msgs() {
		if m.Type != 2 {
			continue
		}
		for i := range ss {
			tag := fmt.Sprintf("l%d", i)
			if (strings.Contains(string(m.Payload), `"`+tag+`"`) || strings.Contains(string(m.Payload), `"ERR`+tag+`"`)) && c.R.IntN(3) > 0 {
				g.pe.Text(replyText(m))
				answered[i] = true
			}
		}
	}
	closed := time.Now()
	how := c.R.IntN(3)
	switch how {
	case 0:
		g.pe.Close()
	case 1:
		g.pe.Raw(8, []byte{0x03, 0xe8})
		g.pe.Close()
	case 2:
		g.pe.Raw(8, []byte{0x03, 0xe9, 'b', 'y', 'e'})
	}
	for i, s := range ss {
		if !s.Within(2 * time.Minute) {
			c.Violate("send-hangs", "Send(%s) did not return after the connection was closed", show(qs[i]))
			return
		}
		if answered[i] {
			c.checkTagged(s, qs[i], "last-word")
		} else if s.Err == nil {
			c.Violate("success-after-loss", "Send(%s) returned %s without a reply", show(qs[i]), show(s.Resp))
		} else if s.At.Sub(closed) > 20*time.Second {
			c.Violate("slow-after-loss", "Send(%s) returned only %v after the connection was closed", show(qs[i]), s.At.Sub(closed))
		}
		c.Count("sends_checked", 1)
	}
	g.check()
	c.Eval(fmt.Sprint("last-word ", k, len(answered), how, g.isCP))
}

// c02Swift: the reply, and perhaps the end of the connection after it, arrives
// before the write of the request returns.
func c02Swift(c *Case) {
	isCP := c.Idx%2 == 0
	g := c.newRig(isCP, nil, nil)
	if g == nil {
		return
	}
	linger := time.Duration(1+c.R.IntN(2000)) * ms
	how := c.R.IntN(4)
	g.pe.setOnMsg(func(p *peer, m *ocppMsg) {
		if m.Type != 2 {
			return
		}
		p.Text(replyText(m))
		switch how {
		case 1:
			p.Close()
		case 2:
			p.Raw(8, []byte{0x03, 0xe8})
			p.Close()
		case 3:
			p.Raw(8, []byte{0x03, 0xe9, 'b', 'y', 'e'})
		}
	})
	g.n.Linger = func(toServer bool) time.Duration {
		if toServer == isCP {
			return linger
		}
		return 0
	}
	n := 1
	if how == 0 {
		n = 1 + c.R.IntN(5)
	}
	for i := 0; i < n && !c.Bad(); i++ {
		s, q := g.send(fmt.Sprintf("w%d", i))
		if !s.Within(2 * time.Minute) {
			c.Violate("send-hangs", "the reply arrived while the request was still being written: Send(%s) did not return", show(q))
			return
		}
		if s.Took() > linger+2*time.Second {
			c.Violate("late-reply", "the reply arrived while the request was still being written: Send(%s) returned only after %v", show(q), s.Took())
		}
		c.checkTagged(s, q, "swift")
		c.Count("sends_checked", 1)
	}
	g.n.Linger = nil
	g.check()
	c.Eval(fmt.Sprint("swift ", how, n, g.isCP, linger/(100*ms)))
}

// c04Long: a long stream of rubbish on one connection.
func c04Long(c *Case) {
	g := c.newRig(c.Idx%2 == 0, nil, nil)
	if g == nil {
		return
	}
	n := []int{130, 300, 700, 1500}[c.R.IntN(4)]
	one := c.R.IntN(2) == 0 // all of one kind
	var op int
	var b []byte
	for i := 0; i < n; i++ {
		if i == 0 || !one {
			for {
				op, b = hostile(c, g, i)
				if len(b) < 2000 {
					break
				}
			}
		}
		if op == 2 {
			g.pe.Raw(op, b)
		} else {
			g.pe.Text(string(b))
		}
		if i%100 == 99 {
			settle(ms)
		}
	}
	settle(time.Second)
	c.Count("hostile_frames", int64(n))
	g.probe()
	c.Eval(fmt.Sprint("long ", n, one, g.isCP, c.Idx%64))
}

// c02Long: very many late, unsolicited and malformed replies on one connection.
func c02Long(c *Case) {
	g := c.newRig(c.Idx%2 == 0, nil, nil)
	if g == nil {
		return
	}
	n := []int{130, 300, 700, 1500}[c.R.IntN(4)]
	one := c.R.IntN(2) == 0
	forms := []string{`[3,%s,{}]`, `[3,%s,{"status":"Accepted"}]`, `[4,%s,"GenericError","d",{}]`, `[3,%s]`, `[3,%s,null]`, `[3,%s,[]]`, `[4,%s,null,null,null]`, `[3,%s,{"nope":1}]`, `[5,%s,{}]`, `[3,[%s],{}]`}
	k := c.R.IntN(len(forms))
	known := ""
	if c.R.IntN(2) == 0 { // of a request that was answered
		s, q := g.send("first")
		settle(5 * time.Second)
		for _, m := range g.pe.Msgs() {
			if m.Type == 2 {
				known = m.ID
				g.pe.Text(replyText(m))
			}
		}
		if s.Within(10 * time.Second) {
			c.checkTagged(s, q, "long")
		}
	}
	for i := 0; i < n; i++ {
		if !one {
			k = c.R.IntN(len(forms))
		}
		id := fmt.Sprint("u", i)
		if known != "" && (one || c.R.IntN(2) == 0) {
			id = known
		}
		g.pe.Text(fmt.Sprintf(forms[k], jsonText(id)))
		if i%100 == 99 {
			settle(ms)
		}
	}
	settle(time.Second)
	c.Count("dropped_replies", int64(n))
	g.probe()
	g.check()
	c.Eval(fmt.Sprint("long ", n, one, k, known != "", g.isCP))
}

// c04Big: frames of megabytes, valid or not.
func c04Big(c *Case) {
	g := c.newRig(c.Idx%2 == 0, nil, nil)
	if g == nil {
		return
	}
	n := 1<<20 + c.R.IntN(3<<20)
	if c.Idx%8 == 7 {
		n *= 10
	}
	var b []byte
	op := 1
	kind := c.R.IntN(7)
	switch kind {
	case 0:
		b = bytes.Repeat([]byte("x"), n)
	case 1:
		b = bytes.Repeat([]byte{0, 0xff, '[', '"'}, n/4)
		op = 2
	case 2:
		b = []byte(`[2,"big","` + strings.Repeat("A", n) + `",{}]`)
	case 3:
		b = []byte(`[3,"` + strings.Repeat("i", n) + `",{}]`)
	case 4:
		b = []byte(`[2,"big","Nothing",{"a":"` + strings.Repeat("é", n/2) + `"}]`)
	case 5:
		b = []byte(`[4,"big","GenericError","` + strings.Repeat(`\n`, n/2) + `",{}]`)
	case 6:
		b = []byte(`[2,"big","Nothing",{"a":[` + strings.Repeat(`1,`, n/2) + `1]}]`)
	}
	if op == 2 {
		g.pe.Raw(op, b)
	} else if c.R.IntN(3) == 0 {
		g.pe.Fragments(b, 1+c.R.IntN(5))
	} else {
		g.pe.Text(string(b))
	}
	settle(time.Second)
	c.Count("hostile_frames", 1)
	g.probe()
	c.Eval(fmt.Sprint("big ", kind, n>>18, g.isCP))
}

// c03Flood: far more CALLs than are handled in time. All of them are handled
// in order and answered, later.
func c03Flood(c *Case) {
	isCP := c.Idx%2 == 0
	var mu sync.Mutex
	var recs []*c03Rec
	active, maxActive := 0, 0
	first := time.Duration(c.R.IntN(120)) * time.Second
	each := time.Duration(c.R.IntN(30)) * ms
	fn := func(q messages.Request) (messages.Response, error) {
		mu.Lock()
		rec := &c03Rec{q: q, start: time.Now(), resp: opOfReq(q).NewResp()}
		recs = append(recs, rec)
		n := len(recs)
		active++
		maxActive = max(maxActive, active)
		mu.Unlock()
		if n == 1 {
			time.Sleep(first)
		}
		time.Sleep(each)
		mu.Lock()
		active--
		mu.Unlock()
		if x, ok := rec.resp.(*cpresp.Heartbeat); ok {
			x.CurrentTime = baseTime.Add(time.Duration(n) * time.Second)
		}
		return rec.resp, nil
	}
	g := c.newRig(isCP, asCS(fn), asCP(fn))
	if g == nil {
		return
	}
	k := 200 + c.R.IntN(900)
	var items []*c03Item
	for i := 0; i < k; i++ {
		it := &c03Item{id: fmt.Sprint("f", i), want: "handled", handled: -1}
		if isCP {
			it.req = &csreq.ChangeConfiguration{Key: fmt.Sprint("k", i), Value: "v"}
		} else if i%3 == 0 {
			it.req = &cpreq.Heartbeat{}
		} else {
			it.req = &cpreq.DataTransfer{VendorId: fmt.Sprint("k", i)}
		}
		it.action = it.req.Action()
		it.payload = toJSON(it.req, schemaOf(it.action))
		items = append(items, it)
	}
	c.Go(func() {
		for _, it := range items {
			g.pe.Call(it.id, it.action, it.payload)
		}
	})
	settle(first + time.Duration(k)*each + time.Minute)
	mu.Lock()
	defer mu.Unlock()
	c03Check(c, g, items, recs, maxActive, true)
	g.check()
	c.Eval(fmt.Sprint("flood", isCP, k/50, first > time.Minute, each/(10*ms)))
}

// c03IDs: charge points and central systems often count their message IDs
// from the same start on each connection. A repeated ID on another connection
// is another CALL.
func c03IDs(c *Case) {
	isCP := c.Idx%2 == 0
	var mu sync.Mutex
	handled := map[string]int{}
	fn := func(q messages.Request) (messages.Response, error) {
		mu.Lock()
		defer mu.Unlock()
		switch q := q.(type) {
		case *cpreq.DataTransfer:
			handled[q.Data]++
			return &cpresp.DataTransfer{Status: "Accepted", Data: q.Data}, nil
		case *csreq.DataTransfer:
			handled[q.Data]++
			return &csresp.DataTransfer{Status: "Accepted", Data: q.Data}, nil
		}
		return nil, errors.New("unexpected")
	}
	g := c.newRig(isCP, asCS(fn), asCP(fn))
	if g == nil {
		return
	}
	ids := []string{"1", "2", "3", "id", "-"}[:1+c.R.IntN(5)]
	if c.R.IntN(4) == 0 { // long ones, equal at the beginning
		k := []int{35, 36, 63, 100, 255, 256, 1023, 5000}[c.R.IntN(8)]
		long := strings.Repeat([]string{"x", "0", "é", " ", "-a"}[c.R.IntN(5)], k)
		ids = append(ids, long, long+"1", long+"2", "1"+long)
	}
	if c.R.IntN(2) == 0 {
		special := []string{"-1", "0", "00", "null", "undefined", "true", "nil", "[2]", "{}", " ", " 1", "1 ", "\n", "\x00", "CALL", "*", "%s", "2147483648"}
		for i := range special {
			j := i + c.R.IntN(len(special)-i)
			special[i], special[j] = special[j], special[i]
		}
		ids = append(ids, special[:1+c.R.IntN(len(special))]...)
	}
	common := ids
	rounds := 2 + c.R.IntN(3)
	pe := g.pe
	for round := 0; round < rounds; round++ {
		if round > 0 {
			overlap := !isCP && c.R.IntN(2) == 0
			if !overlap {
				if c.R.IntN(2) == 0 {
					pe.Close()
				} else {
					pe.link().Reset()
				}
				settle(time.Duration(c.R.IntN(2000)) * ms)
			}
			if isCP {
				pe = g.raw.Peer(round, 5*time.Minute)
			} else {
				pe, _ = c.rawCP(g.n, "cp")
			}
			if pe == nil {
				c.Violate("dial", "no new connection")
				return
			}
		}
		// the IDs of calls the other way are in use, too
		ids := append([]string(nil), common...)
		var outs []*sent
		var outIDs []string
		for i := c.R.IntN(3); i > 0; i-- {
			settle(20 * ms)
			had := len(pe.Msgs())
			var st *sent
			if isCP {
				st = c.sendCP(g.cpp, &cpreq.Heartbeat{})
			} else if svc, err := g.csys.GetServiceOf("cp", ocpp.V16, ""); err == nil {
				st = c.sendCS(svc, &csreq.ClearCache{})
			} else {
				c.Violate("no-service", "GetServiceOf of a connected charge point: %v", err)
				return
			}
			settle(20 * ms)
			ms := pe.Msgs()
			if len(ms) != had+1 || ms[had].Type != 2 {
				c.Violate("not-sent", "a Send put nothing on the wire of connection %d", round)
				return
			}
			outs, outIDs = append(outs, st), append(outIDs, ms[had].ID)
			ids = append(ids, ms[had].ID)
		}
		for _, id := range ids {
			pe.Call(id, "DataTransfer", map[string]any{"vendorId": "v", "data": fmt.Sprint(round, "/", id)})
		}
		settle(time.Second)
		for i, st := range outs {
			if st.Done() {
				c.Violate("send-early", "Send %q of connection %d returned %v after a CALL with the same ID", outIDs[i], round, st.Err)
			}
			if isCP {
				pe.Reply(outIDs[i], map[string]any{"currentTime": "2020-01-01T00:00:00Z"})
			} else {
				pe.Reply(outIDs[i], map[string]any{"status": "Accepted"})
			}
			if !st.Within(time.Minute) || st.Err != nil {
				c.Violate("send-lost", "Send %q of connection %d after a CALL with the same ID: returned %v, error %v", outIDs[i], round, st.Done(), st.Err)
			}
		}
		for _, id := range ids {
			data := fmt.Sprint(round, "/", id)
			mu.Lock()
			n := handled[data]
			mu.Unlock()
			if n != 1 {
				c.Violate("handled-times", "CALL %q of connection %d was handled %d times", id, round, n)
			}
			as := answersTo(pe.Msgs())[id]
			if len(as) != 1 || as[0].Type != 3 || !strings.Contains(string(as[0].Payload), jsonText(data)) {
				c.Violate("answer", "CALL %q of connection %d was answered with %v", id, round, as)
			}
			c.Count("calls_checked", 1)
		}
	}
	c.Eval(fmt.Sprint("ids", isCP, len(ids), rounds, c.Idx%16))
}

// c22Large: messages of up to many megabytes, both ways, whole or in fragments.
func c22Large(c *Case) {
	n := c.NewNet()
	echo := func(q messages.Request) (messages.Response, error) {
		switch q := q.(type) {
		case *cpreq.DataTransfer:
			return &cpresp.DataTransfer{Data: q.Data, Status: "Accepted"}, nil
		case *csreq.DataTransfer:
			return &csresp.DataTransfer{Data: q.Data, Status: "Accepted"}, nil
		}
		return nil, errors.New("unexpected")
	}
	csys := c.startCS(n, asCS(echo))
	p := c.mustCP(n, cpOpt{ID: "cp", Handler: asCP(echo)})
	if p == nil {
		return
	}
	settle(100 * ms)
	svc, err := csys.GetServiceOf("cp", ocpp.V16, "")
	if err != nil {
		c.Violate("no-service", "GetServiceOf: %v", err)
		return
	}
	size := []int{65535, 65536, 100_000, 1 << 20, 3 << 20, 9 << 20, 20 << 20}[(c.Idx/2)%7] + c.R.IntN(3) - 1
	text := strings.Repeat("x", size/2) + strings.Repeat("é", size/4) + "end"
	s1 := c.sendCP(p, &cpreq.DataTransfer{VendorId: "v", Data: text})
	if c.Idx%2 == 0 {
		s1.Within(time.Minute)
	}
	s2 := c.sendCS(svc, &csreq.DataTransfer{VendorId: "w", Data: text})
	for i, s := range []*sent{s1, s2} {
		if !s.Within(5 * time.Minute) {
			c.Violate("send-hangs", "Send of %d bytes did not return", len(text))
			return
		}
		if s.Err != nil {
			c.Violate("send-error", "Send of %d bytes: %v", len(text), s.Err)
			continue
		}
		got := ""
		if i == 0 {
			got = s.Resp.(*cpresp.DataTransfer).Data
		} else {
			got = s.Resp.(*csresp.DataTransfer).Data
		}
		if got != text {
			c.Violate("altered", "%d bytes came back as %d other bytes", len(text), len(got))
		}
	}
	settle(time.Minute)
	c22Wire(c, n, 2)
	// the same from a peer that splits it into many fragments
	id := fmt.Sprint("big", c.Idx)
	g := c.newRig(c.Idx%4 < 2, asCS(echo), asCP(echo))
	if g == nil {
		return
	}
	msg := fmt.Sprintf(`[2,%q,"DataTransfer",{"vendorId":"v","data":%q}]`, id, text)
	g.pe.Fragments([]byte(msg), 1+c.R.IntN(40))
	a := g.pe.Answer(5*time.Minute, id)
	if a == nil || a.Type != 3 || !strings.Contains(string(a.Payload), jsonText(text)) {
		c.Violate("fragments", "a CALL of %d bytes in fragments was not answered properly", len(msg))
	}
	c.Eval(fmt.Sprint("large ", size, c.Idx%4))
}
