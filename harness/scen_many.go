package verifharness

// What needs very many messages on one connection: counters that wrap around,
// tables that fill up, limits on how much may be outstanding.

import (
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// manyRig is a connection with a scripted peer that stores nothing. send makes
// the real side Send a request with a tag and returns the tag that came back.
func (c *Case) manyRig(real string) (g *growthRig, send func(tag string) (string, error)) {
	n := c.NewNet()
	n.Forget()
	g = &growthRig{c: c, n: n}
	if real == "cs" {
		if !g.csWithPeer("ok")(g) {
			c.Violate("setup", "no connection")
			return nil, nil
		}
		return g, func(tag string) (string, error) {
			a, err := g.svc.Send(&csreq.GetDiagnostics{Location: tag})
			if err != nil {
				return "", err
			}
			if x, ok := a.(*csresp.GetDiagnostics); ok {
				return x.FileName, nil
			}
			return "", fmt.Errorf("a %T", a)
		}
	}
	if !g.cpWithPeer("ok")(g) {
		c.Violate("setup", "no connection")
		return nil, nil
	}
	return g, func(tag string) (string, error) {
		a, err := g.p.Send(&cpreq.DataTransfer{VendorId: "v", Data: tag})
		if err != nil {
			return "", err
		}
		if x, ok := a.(*cpresp.DataTransfer); ok {
			return x.Data, nil
		}
		return "", fmt.Errorf("a %T", a)
	}
}

// manyTag is the tag in the payload of a request of manyRig's, and the reply to it.
func manyTag(m *ocppMsg) (tag string, reply string) {
	var x struct{ Location, Data string }
	json.Unmarshal(m.Payload, &x)
	if m.Action == "GetDiagnostics" {
		return x.Location, fmt.Sprintf(`[3,%q,{"fileName":%q}]`, m.ID, x.Location)
	}
	return x.Data, fmt.Sprintf(`[3,%q,{"status":"Accepted","data":%q}]`, m.ID, x.Data)
}

// cManySends: more than 65536 Sends on one connection, while a few of the first
// ones wait for their replies all the time.
func cManySends(c *Case) {
	real := []string{"cs", "cp"}[c.Idx%2]
	g, send := c.manyRig(real)
	if g == nil {
		return
	}
	pe := g.peer()
	var mu sync.Mutex
	seen := map[string]string{}
	var held []string
	reused := ""
	pe.mu.Lock()
	pe.f = func(p *growPeer, b []byte) {
		m, err := parseOCPP(b)
		if err != nil || m.Type != 2 {
			return
		}
		tag, reply := manyTag(m)
		mu.Lock()
		if o, ok := seen[m.ID]; ok && reused == "" {
			reused = fmt.Sprintf("the message ID %q is used for the request %q and, %d requests later, for %q", m.ID, o, len(seen), tag)
		}
		seen[m.ID] = tag
		hold := len(tag) > 4 && tag[:4] == "hold"
		if hold {
			held = append(held, reply)
		}
		mu.Unlock()
		if !hold {
			p.text(reply)
		}
	}
	pe.mu.Unlock()
	total := 66000 + c.R.IntN(2000)
	one := func(tag string) *Op {
		return c.Go(func() {
			a, err := send(tag)
			if err != nil {
				c.Violate("unexpected-error", "the request %q was answered, Send returned error %q", tag, err)
			} else if a != tag {
				c.Violate("wrong-response", "the reply to the request %q is the one to %q", tag, a)
			}
		})
	}
	holds := []*Op{one("hold-a"), one("hold-b"), one("hold-c")}
	settle(ms)
	w := 1 + c.R.IntN(60)
	for i := 0; i < total && !c.Bad(); {
		var batch []*Op
		for j := 0; j < w && i < total; j++ {
			batch = append(batch, one(fmt.Sprint("t", i)))
			i++
		}
		for _, o := range batch {
			if !o.Within(10 * time.Second) {
				c.Violate("send-hangs", "a Send after about %d others did not return", i)
				return
			}
		}
		if i%1000 < w {
			progress.Add(1)
		}
	}
	mu.Lock()
	if reused != "" {
		c.Violate("id-reused", "%s", reused)
	}
	replies := held
	mu.Unlock()
	for _, r := range replies {
		pe.text(r)
	}
	for _, o := range holds {
		if !o.Within(10 * time.Second) {
			c.Violate("send-hangs", "a Send with %d later ones did not return although its reply arrived", total)
		}
	}
	c.Count("sends_on_one_connection", int64(total))
	c.Eval(fmt.Sprint("many-sends ", real, w))
}

// cCrowd: thousands of Sends outstanding at once on one connection.
func cCrowd(c *Case) {
	real := []string{"cs", "cp"}[c.Idx%2]
	g, send := c.manyRig(real)
	if g == nil {
		return
	}
	pe := g.peer()
	n := 1500 + c.R.IntN(4000)
	wait := time.Duration(1+c.R.IntN(50)) * time.Second
	never := c.R.IntN(50)
	var mu sync.Mutex
	var replies []string
	pe.mu.Lock()
	pe.f = func(p *growPeer, b []byte) {
		m, err := parseOCPP(b)
		if err != nil || m.Type != 2 {
			return
		}
		_, reply := manyTag(m)
		mu.Lock()
		replies = append(replies, reply)
		mu.Unlock()
	}
	pe.mu.Unlock()
	type rec struct {
		o   *Op
		tag string
		got string
		err error
	}
	start := time.Now()
	var recs []*rec
	for i := 0; i < n; i++ {
		x := &rec{tag: fmt.Sprint("t", i)}
		x.o = c.Go(func() { x.got, x.err = send(x.tag) })
		recs = append(recs, x)
		if i%200 == 0 {
			settle(0)
		}
	}
	settle(ms)
	mu.Lock()
	got := replies
	mu.Unlock()
	if len(got) != n {
		c.Violate("not-sent", "of %d requests at once only %d are on the wire", n, len(got))
		return
	}
	c.R.Shuffle(len(got), func(i, j int) { got[i], got[j] = got[j], got[i] })
	time.Sleep(wait)
	for _, r := range got[never:] {
		pe.text(r)
	}
	settle(time.Second)
	failed := 0
	at := time.Since(start)
	for _, x := range recs {
		switch {
		case !x.o.Done():
			failed++
		case x.err != nil:
			c.Violate("unexpected-error", "with %d Sends outstanding, %q was answered after %v, Send returned error %q", n, x.tag, at, x.err)
		case x.got != x.tag:
			c.Violate("wrong-response", "with %d Sends outstanding, the reply to %q is the one to %q", n, x.tag, x.got)
		}
	}
	if failed != never {
		c.Violate("reply-lost", "with %d Sends outstanding, %d were answered; %d still wait", n, n-never, failed)
	}
	time.Sleep(62*time.Second - time.Since(start))
	for _, x := range recs {
		if !x.o.Done() {
			c.Violate("no-timeout", "with %d Sends outstanding, Send(%q), which is not answered, waits for more than 62 s", n, x.tag)
			break
		}
	}
	failed = 0
	for _, x := range recs {
		if x.o.Done() && x.err != nil {
			failed++
		}
	}
	if failed != never && !c.Bad() {
		c.Violate("unanswered-success", "%d requests were not answered, %d Sends returned errors", never, failed)
	}
	c.Count("sends_outstanding", int64(n))
	c.Eval(fmt.Sprint("crowd ", real, n/500, wait, never > 0))
}

// c03Many: more than 65536 CALLs on one connection.
func c03Many(c *Case) {
	real := []string{"cs", "cp"}[c.Idx%2]
	n := c.NewNet()
	n.Forget()
	g := &growthRig{c: c, n: n}
	var mu sync.Mutex
	next, handling := 0, 0
	odd := ""
	note := func(tag string) {
		mu.Lock()
		if handling++; handling > 1 && odd == "" {
			odd = "two requests are handled at once"
		}
		if want := fmt.Sprint("n", next); tag != want && odd == "" {
			odd = fmt.Sprintf("after %d requests %q is handled instead of %q", next, tag, want)
		}
		next++
		handling--
		mu.Unlock()
	}
	ok := false
	if real == "cs" {
		g.csys = c.startCS(n, func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
			if x, ok := q.(*cpreq.Authorize); ok {
				note(x.IdTag)
			}
			return answerCP(q)
		})
		g.pe = g.dial("cp")
		ok = g.pe != nil
	} else {
		ok = g.cpWithHandler("ok", func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
			if x, ok := q.(*csreq.GetDiagnostics); ok {
				note(x.Location)
			}
			return answerCS(q)
		})(g)
	}
	if !ok {
		c.Violate("setup", "no connection")
		return
	}
	settle(time.Second)
	pe := g.peer()
	answers := 0
	pe.mu.Lock()
	pe.f = func(p *growPeer, b []byte) {
		m, err := parseOCPP(b)
		if err != nil {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		if want := fmt.Sprint("id", answers); (m.Type != 3 || m.ID != want) && odd == "" {
			odd = fmt.Sprintf("after %d answers the peer got %s", answers, m)
		}
		answers++
	}
	pe.mu.Unlock()
	total := 66000 + c.R.IntN(2000)
	for i := 0; i < total; i++ {
		if real == "cs" {
			pe.text(fmt.Sprintf(`[2,"id%d","Authorize",{"idTag":"n%d"}]`, i, i))
		} else {
			pe.text(fmt.Sprintf(`[2,"id%d","GetDiagnostics",{"location":"n%d"}]`, i, i))
		}
		if i%64 == 63 {
			time.Sleep(ms)
			progress.Add(1)
		}
	}
	settle(time.Minute)
	mu.Lock()
	defer mu.Unlock()
	if odd != "" {
		c.Violate("many", "%s", odd)
	} else if next != total || answers != total {
		c.Violate("many", "of %d requests %d were handled and %d answered", total, next, answers)
	}
	c.Count("calls_on_one_connection", int64(total))
	c.Eval(fmt.Sprint("many-calls ", real, total%7))
}
