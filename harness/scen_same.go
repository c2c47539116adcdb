package verifharness

// Requests that are equal.

import (
	"fmt"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
)

// c01Same: equal requests, even one object, are outstanding at once on a
// connection or on several; each is a request of its own with a reply of its own.
func c01Same(c *Case) {
	isCP := c.Idx%2 == 0
	conns := 1 + c.R.IntN(3)
	var rigs []*rig
	first := c.newRig(isCP, nil, nil)
	if first == nil {
		return
	}
	rigs = append(rigs, first)
	for i := 1; i < conns; i++ {
		g := c.newRig(isCP, nil, nil)
		if g == nil {
			return
		}
		rigs = append(rigs, g)
	}
	nd := ""
	for _, g := range rigs {
		nd += c.randNet(g.n)
	}
	var q messages.Request
	var reply func(id, tag string) string
	var field func(resp any) string
	tagField := func(v any) string { // the field with the tag
		t := show(v)
		i := strings.Index(t, "same-")
		if i < 0 {
			return "no tag in " + t
		}
		j := i
		for j < len(t) && t[j] != '"' {
			j++
		}
		return t[i:j]
	}
	field = tagField
	if isCP {
		switch c.R.IntN(3) {
		case 0:
			q = &cpreq.DataTransfer{VendorId: "v", MessageId: "m", Data: "d"}
			reply = func(id, tag string) string {
				return fmt.Sprintf(`[3,%s,{"status":"Accepted","data":%q}]`, jsonText(id), tag)
			}
		case 1:
			q = &cpreq.Authorize{IdTag: "tag"}
			reply = func(id, tag string) string {
				return fmt.Sprintf(`[3,%s,{"idTagInfo":{"status":"Accepted","parentIdTag":%q}}]`, jsonText(id), tag)
			}
		default:
			q = &cpreq.Heartbeat{}
			reply = func(id, tag string) string {
				var n int
				fmt.Sscanf(tag, "same-%d", &n)
				return fmt.Sprintf(`[3,%s,{"currentTime":%q}]`, jsonText(id), baseTime.Add(time.Duration(n)*time.Second).Format(time.RFC3339))
			}
			field = func(resp any) string {
				t, ok := timeOf(resp)
				if !ok {
					return "no time in " + show(resp)
				}
				return fmt.Sprintf("same-%d", int(t.Sub(baseTime)/time.Second))
			}
		}
	} else {
		switch c.R.IntN(2) {
		case 0:
			q = &csreq.DataTransfer{VendorId: "v", MessageId: "m", Data: "d"}
			reply = func(id, tag string) string {
				return fmt.Sprintf(`[3,%s,{"status":"Accepted","data":%q}]`, jsonText(id), tag)
			}
		default:
			q = &csreq.GetDiagnostics{Location: "ftp://x/"}
			reply = func(id, tag string) string {
				return fmt.Sprintf(`[3,%s,{"fileName":%q}]`, jsonText(id), tag)
			}
		}
	}
	k := 2 + c.R.IntN(8)
	oneObject := c.R.IntN(2) == 0
	gap := []time.Duration{0, 0, ms, time.Second, 2 * time.Second}[c.R.IntN(5)]
	type one struct {
		s   *sent
		rig int
	}
	var all []one
	for i := 0; i < k; i++ {
		x := q
		if !oneObject {
			x = clone(q)
		}
		r := c.R.IntN(len(rigs))
		g := rigs[r]
		if isCP {
			all = append(all, one{c.sendCP(g.cpp, x.(cpreq.ChargePointRequest)), r})
		} else {
			all = append(all, one{c.sendCS(g.svc, x.(csreq.CentralSystemRequest)), r})
		}
		time.Sleep(gap)
	}
	settle(5 * time.Second)
	// each connection has as many CALLs as were sent over it
	type call struct {
		rig int
		id  string
	}
	var calls []call
	for r, g := range rigs {
		want := 0
		for _, a := range all {
			if a.rig == r {
				want++
			}
		}
		got := 0
		for _, m := range g.pe.Msgs() {
			if m.Type == 2 {
				got++
				calls = append(calls, call{r, m.ID})
			}
		}
		if got != want {
			c.Violate("coalesced", "%d equal requests %s %s were sent at once over connection %d, %d are on the wire", want, q.Action(), show(q), r, got)
			return
		}
	}
	c.R.Shuffle(len(calls), func(i, j int) { calls[i], calls[j] = calls[j], calls[i] })
	silent := 0
	if c.R.IntN(3) == 0 {
		silent = c.R.IntN(len(calls))
	}
	given := make([]map[string]bool, len(rigs))
	for r := range rigs {
		given[r] = map[string]bool{}
	}
	for i, x := range calls[silent:] {
		tag := fmt.Sprintf("same-%d", i)
		given[x.rig][tag] = true
		rigs[x.rig].pe.Text(reply(x.id, tag))
		settle(time.Duration(c.R.IntN(3)) * 500 * ms)
	}
	settle(5 * time.Second)
	late := 0
	for _, a := range all {
		if !a.s.Done() {
			late++
			continue
		}
		if a.s.Err != nil {
			c.Violate("same:error", "equal requests %s: a Send returned error %q", show(q), a.s.Err)
			continue
		}
		tag := field(a.s.Resp)
		if !given[a.rig][tag] {
			c.Violate("same:wrong-reply", "%d equal requests %s: a Send over connection %d returned %s, which is no reply of that connection that no other Send has returned", k, show(q), a.rig, show(a.s.Resp))
		}
		delete(given[a.rig], tag)
	}
	if late != silent {
		c.Violate("same:lost", "%d equal requests %s were answered, %d Sends still wait", len(calls)-silent, show(q), late)
	}
	settle(time.Minute)
	for _, a := range all {
		if !a.s.Done() {
			c.Violate("same:no-timeout", "a Send of one of %d equal requests %s waits for more than its 60 s", k, show(q))
			break
		}
	}
	for _, g := range rigs {
		g.probe()
		g.check()
	}
	c.Count("equal_requests", int64(k))
	c.Eval(fmt.Sprint("same ", q.Action(), isCP, k, conns, oneObject, silent > 0, gap, nd))
}
