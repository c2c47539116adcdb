package verifharness

// Replies that are none.

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
)

// c02Dropped: before the reply to an outstanding request arrive frames that
// look like replies to it, saying something else, but are none.
func c02Dropped(c *Case) {
	g := c.newRig(c.Idx%2 == 0, nil, nil)
	if g == nil {
		return
	}
	c.randNet(g.n)
	k := 1 + c.R.IntN(3)
	var names []string
	for i := 0; i < k; i++ {
		s, q := g.send(fmt.Sprintf("drop-%d", i))
		m := g.pe.Wait(30*time.Second, func(m *ocppMsg) bool { return m.Type == 2 && strings.Contains(m.Raw, fmt.Sprintf("drop-%d", i)) })
		if m == nil {
			c.Violate("not-sent", "Send(%s) put nothing on the wire", show(q))
			return
		}
		good := replyText(m)
		var other string // what would be a reply, if it were well-formed
		if c.R.IntN(2) == 0 {
			other = fmt.Sprintf(`[4,%s,"GenericError","not this one",{}]`, jsonText(m.ID))
		} else {
			other = strings.ReplaceAll(good, fmt.Sprintf("drop-%d", i), "nope")
		}
		id := jsonText(m.ID)
		with := func(x string) string { return strings.Replace(other, id, x, 1) }
		forms := []func() (string, string){
			func() (string, string) {
				return "text after it", other + []string{"x", " x", "]", ",", "{}", " []", other, "\x00"}[c.R.IntN(8)]
			},
			func() (string, string) {
				return "text before it", []string{"x", "[", ",", "1 ", "[]", "\ufeff", "null"}[c.R.IntN(7)] + other
			},
			func() (string, string) { return "cut", other[:len(other)-1-c.R.IntN(len(other)-1)] },
			func() (string, string) { return "in an object", `{"reply":` + other + `}` },
			func() (string, string) { return "in an array", "[" + other + "]" },
			func() (string, string) { return "single quotes", strings.ReplaceAll(other, `"`, `'`) },
			func() (string, string) { return "trailing comma", other[:len(other)-1] + ",]" },
			func() (string, string) { return "no commas", strings.ReplaceAll(other, ",", " ") },
			func() (string, string) { return "no payload", "[3," + id + "]" },
			func() (string, string) { return "payload null", "[3," + id + ",null]" },
			func() (string, string) { return "payload array", "[3," + id + ",[]]" },
			func() (string, string) { return "payload text", "[3," + id + `,"{}"]` },
			func() (string, string) { return "type text", `["` + other[1:2] + `"` + other[2:] },
			func() (string, string) {
				return "type unknown", "[" + []string{"5", "0", "-3", "34", "33", "null", "true", "259", "3.5", "4.25", "3.0001", "3.9999"}[c.R.IntN(12)] + other[2:]
			},
			func() (string, string) { return "id in upper case", with(strings.ToUpper(id)) },
			func() (string, string) { return "id with space", with(`" ` + m.ID + `"`) },
			func() (string, string) { return "id with space after", with(`"` + m.ID + ` "`) },
			func() (string, string) { return "id cut", with(jsonText(m.ID[:len(m.ID)-1])) },
			func() (string, string) { return "id longer", with(jsonText(m.ID + "0")) },
			func() (string, string) { return "id in array", with("[" + id + "]") },
			func() (string, string) { return "id null", with("null") },
			func() (string, string) { return "comment", "/* */" + other },
			func() (string, string) { return "twice", other + other },
		}
		for j := 1 + c.R.IntN(4); j > 0; j-- {
			name, text := forms[(c.Idx+j*5+i)%len(forms)]()
			if text == "" || strings.ToUpper(id) == id && name == "id in upper case" {
				continue
			}
			names = append(names, name)
			op := 1
			if c.R.IntN(5) == 0 {
				op = 1 + c.R.IntN(2)
			}
			g.pe.Raw(op, []byte(text))
			settle(time.Duration(c.R.IntN(3)) * 100 * ms)
			if s.Done() {
				c.Violate("not-dropped:"+name, "Send(%s) ended with %s, %v after the frame %q, which is no reply to it", show(q), show(s.Resp), s.Err, text)
				return
			}
		}
		g.pe.Text(good)
		if !s.Within(20 * time.Second) {
			c.Violate("reply-not-delivered", "after the frames %q the reply to Send(%s) was not delivered", names, show(q))
			return
		}
		c.checkTagged(s, q, "dropped")
		c.Count("sends_checked", 1)
	}
	g.probe()
	g.check()
	c.Eval(fmt.Sprint("dropped ", names, g.isCP))
}

// c05Frames: frames that look like CALLs but are no JSON arrays of the form
// [2, "id", "action", {payload}] never reach the handler.
func c05Frames(c *Case) {
	isCP := c.Idx%2 == 0
	var mu sync.Mutex
	var seen []string
	fn := func(q messages.Request) (messages.Response, error) {
		mu.Lock()
		seen = append(seen, show(q))
		mu.Unlock()
		if x, ok := q.(cpreq.ChargePointRequest); ok {
			return answerCP(x)
		}
		return answerCS(q.(csreq.CentralSystemRequest))
	}
	g := c.newRig(isCP, asCS(fn), asCP(fn))
	if g == nil {
		return
	}
	c.randNet(g.n)
	var names []string
	for i := 0; i < 1+c.R.IntN(6); i++ {
		id := jsonText(fmt.Sprint("id", i))
		action, payload := `"ChangeConfiguration"`, `{"key":"bad","value":"v"}`
		if !isCP {
			action, payload = []string{`"Authorize"`, `"Heartbeat"`}[c.R.IntN(2)], `{"idTag":"bad"}`
			if action == `"Heartbeat"` {
				payload = "{}"
			}
		}
		good := "[2," + id + "," + action + "," + payload + "]"
		A := func(t, id, action, payload string) string {
			return "[" + t + "," + id + "," + action + "," + payload + "]"
		}
		no := func() string {
			return []string{"null", "true", "0", "[]", "[{}]", "{}x", `"{}"`, "[" + payload + "]", `"x"`, ""}[c.R.IntN(10)]
		}
		notText := func(s string) string {
			return []string{"null", "true", "1", "{}", "[" + s + "]", `{"a":` + s + "}", "", "x"}[c.R.IntN(8)]
		}
		forms := []func() (string, string){
			func() (string, string) {
				return "text after it", good + []string{"x", " x", "]", ",", "{}", " []", good, "\x00"}[c.R.IntN(8)]
			},
			func() (string, string) {
				return "text before it", []string{"x", "[", ",", "1 ", "[]", "\ufeff", "null"}[c.R.IntN(7)] + good
			},
			func() (string, string) { return "cut", good[:len(good)-1-c.R.IntN(len(good)-1)] },
			func() (string, string) { return "in an object", `{"call":` + good + `}` },
			func() (string, string) { return "in an array", "[" + good + "]" },
			func() (string, string) { return "single quotes", strings.ReplaceAll(good, `"`, `'`) },
			func() (string, string) { return "trailing comma", good[:len(good)-1] + ",]" },
			func() (string, string) { return "no commas", strings.ReplaceAll(good, ",", " ") },
			func() (string, string) { return "no payload", "[2," + id + "," + action + "]" },
			func() (string, string) { return "bad payload", A("2", id, action, no()) },
			func() (string, string) { return "bad action", A("2", id, notText(action), payload) },
			func() (string, string) { return "bad id", A("2", notText(id), action, payload) },
			func() (string, string) {
				return "bad type", A([]string{`"2"`, "0", "1", "5", "-2", "22", "258", "null", "true", "[2]", "", "02", "+2", "2x", "2.5", "2.9", "1.5", "2.0001", "1.9999"}[c.R.IntN(19)], id, action, payload)
			},
			func() (string, string) { return "swapped", A("2", id, payload, action) },
			func() (string, string) { return "no id", "[2," + action + "," + payload + "]" },
			func() (string, string) { return "comment", "// x\n" + good },
		}
		name, text := forms[(c.Idx/2+i*3)%len(forms)]()
		names = append(names, name)
		op := 1
		if c.R.IntN(5) == 0 {
			op = 2
		}
		c.Logf("frame %q", text)
		g.pe.Raw(op, []byte(text))
		settle(time.Duration(1+c.R.IntN(3)) * time.Second)
		mu.Lock()
		if len(seen) > 0 {
			c.Violate("frame-handled:"+name, "the frame %q, which is no CALL, made the handler run with %s", text, seen[0])
		}
		mu.Unlock()
		for _, m := range g.pe.Msgs() {
			if m.Type == 3 {
				c.Violate("frame-answered:"+name, "the frame %q, which is no CALL, was answered with %s", text, m)
			}
		}
		c.Count("frames_that_are_no_calls", 1)
		if c.Bad() {
			return
		}
	}
	g.probe()
	g.check()
	c.Eval(fmt.Sprint("frames ", names, isCP))
}

// c02Idle: a connection over which nothing is sent for a long time is still
// the same working connection.
func c02Idle(c *Case) {
	g := c.newRig(c.Idx%2 == 0, nil, nil)
	if g == nil {
		return
	}
	nd := c.randNet(g.n)
	l, links := g.pe.link(), len(g.n.Links())
	var trace []string
	idles := []time.Duration{45 * time.Second, 61 * time.Second, 5 * time.Minute, 59 * time.Minute, 61 * time.Minute, 5 * time.Hour, 25 * time.Hour, 8 * 24 * time.Hour, 45 * 24 * time.Hour, 400 * 24 * time.Hour}
	for i := 0; i < 1+c.R.IntN(4) && !c.Bad(); i++ {
		d := idles[c.R.IntN(len(idles))]
		switch how := []string{"silence", "pings", "pongs"}[c.R.IntN(3)]; how {
		case "silence":
			trace = append(trace, fmt.Sprint(d))
			time.Sleep(d)
		default:
			trace = append(trace, fmt.Sprint(d, " ", how))
			k := 1 + c.R.IntN(8)
			for j := 0; j < k; j++ {
				time.Sleep(d / time.Duration(k))
				g.pe.Raw(map[string]int{"pings": 9, "pongs": 10}[how], []byte(fmt.Sprint("p", j)))
			}
		}
		settle(5 * time.Second)
		if g.pe.IsClosed() || g.pe.link() != l || len(g.n.Links()) != links {
			c.Violate("idle-closed", "a connection over which no message went (%v) was closed or replaced", trace)
			return
		}
		// the first message after it goes either way
		if c.R.IntN(2) == 0 {
			s, q := g.send(fmt.Sprintf("idle-%d", i))
			m := g.pe.Wait(30*time.Second, func(m *ocppMsg) bool { return m.Type == 2 && strings.Contains(m.Raw, fmt.Sprintf("idle-%d", i)) })
			if m == nil {
				c.Violate("idle-not-sent", "after %v Send(%s) put nothing on the wire (%v, %v)", trace, show(q), s.Done(), s.Err)
				return
			}
			g.pe.Text(replyText(m))
			if !s.Within(20 * time.Second) {
				c.Violate("idle-reply", "after %v the reply to Send(%s) was not delivered", trace, show(q))
				return
			}
			c.checkTagged(s, q, "idle")
			c.Count("sends_checked", 1)
		}
		g.probe()
	}
	g.check()
	c.Eval(fmt.Sprint("idle ", nd, g.isCP, trace))
}
