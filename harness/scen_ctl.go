package verifharness

// Control frames while messages are on their way.

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// c22Pings: the peer sends pings, pongs and empty messages while the library
// writes messages slowly (each write to the network takes a while), also
// between the fragments of its own messages.
func c22Pings(c *Case) {
	isCP := c.Idx%2 == 0
	echo := func(q messages.Request) (messages.Response, error) {
		switch q := q.(type) {
		case *cpreq.DataTransfer:
			return &cpresp.DataTransfer{Data: q.Data, Status: "Accepted"}, nil
		case *csreq.DataTransfer:
			return &csresp.DataTransfer{Data: q.Data, Status: "Accepted"}, nil
		case cpreq.ChargePointRequest:
			return answerCP(q)
		case csreq.CentralSystemRequest:
			return answerCS(q)
		}
		return nil, errors.New("unexpected")
	}
	g := c.newRig(isCP, asCS(echo), asCP(echo))
	if g == nil {
		return
	}
	g.pe.setOnMsg(func(p *peer, m *ocppMsg) {
		if m.Type == 2 {
			p.Reply(m.ID, map[string]any{"status": "Accepted", "data": "r"})
		}
	})
	lingers := []time.Duration{0, 0, 3 * ms, 40 * ms, 300 * ms}
	r := rngFor(c.Seed, c.Kind, c.Idx, "linger")
	g.n.Linger = func(toServer bool) time.Duration {
		if toServer != isCP {
			return 0
		}
		return lingers[r.IntN(len(lingers))] // only one goroutine writes at a time, but for pongs
	}
	pings := map[string]bool{}
	stop := make(chan struct{})
	ended := c.Go(func() {
		rr := rngFor(c.Seed, c.Kind, c.Idx, "pings")
		for i := 0; i < 400; i++ {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(rr.IntN(60000)) * time.Microsecond * time.Duration(rr.IntN(3))):
			}
			b := strings.Repeat("p", rr.IntN(115)) + fmt.Sprintf("#%d", i)
			switch rr.IntN(5) {
			case 0:
				g.pe.Raw(10, []byte(b))
			default:
				pings[b] = true
				g.pe.Raw(9, []byte(b))
			}
			c.Count("control_frames", 1)
		}
	})
	k := 2 + c.R.IntN(6)
	total := 0
	for i := 0; i < k && !c.Bad(); i++ {
		size := []int{10, 1000, 5000, 20000, 60000}[c.R.IntN(5)]
		text := strings.Repeat("é\"x", size/4) + fmt.Sprint("#", i)
		if c.R.IntN(2) == 0 {
			var s *sent
			if isCP {
				s = c.sendCP(g.cpp, &cpreq.DataTransfer{VendorId: "v", Data: text})
			} else {
				s = c.sendCS(g.svc, &csreq.DataTransfer{VendorId: "v", Data: text})
			}
			total++
			if !s.Within(3 * time.Minute) {
				c.Violate("send-hangs", "a Send of %d bytes did not return while the peer sends pings", len(text))
				return
			}
			if s.Err != nil {
				c.Violate("send-error", "a Send of %d bytes failed while the peer sends pings: %v", len(text), s.Err)
				return
			}
			continue
		}
		id := fmt.Sprint("c", i)
		msg := []byte(fmt.Sprintf(`[2,%q,"DataTransfer",{"vendorId":"v","data":%s}]`, id, jsonText(text)))
		if c.R.IntN(2) == 0 {
			g.pe.FragmentsWith(msg, 1+c.R.IntN(12), func(j int) []byte {
				if c.R.IntN(2) == 0 {
					return nil
				}
				return []byte(fmt.Sprintf("in %d.%d", i, j))
			})
		} else {
			g.pe.Text(string(msg))
		}
		a := g.pe.Answer(3*time.Minute, id)
		if a == nil {
			c.Violate("answer", "a CALL of %d bytes with pings before, in and after it was not answered", len(text))
			return
		}
		settle(time.Second) // the write of the answer returns
		if a.Type != 3 || !strings.Contains(string(a.Payload), jsonText(text)) {
			c.Violate("altered", "a CALL of %d bytes with pings before, in and after it was answered with %.200s", len(text), a.Raw)
		}
	}
	close(stop)
	if !ended.Within(time.Minute) {
		c.Violate("blocked", "the peer cannot send pings anymore")
		return
	}
	settle(10 * time.Second)
	g.n.Linger = nil
	if g.pe.IsClosed() {
		c.Violate("connection-dropped", "the connection was closed although it works and nothing but pings, pongs and valid messages came")
		return
	}
	g.pe.setOnMsg(nil)
	// in peace every ping gets its pong
	g.pe.Raw(9, []byte("last"))
	settle(5 * time.Second)
	g.probe()
	g.check()
	l := g.pe.link()
	segs := l.C2S.TapSegs()
	if !isCP {
		segs = l.S2C.TapSegs()
	}
	pongs, last := 0, 0
	for _, m := range parseWire(segs, isCP).Msgs {
		if m.Op == 10 {
			pongs++
			s := string(m.Data)
			if s == "last" {
				last++
			} else if !pings[s] && !strings.HasPrefix(s, "in ") {
				c.Violate("pong", "a pong with the data %.200q, which no ping had", s)
			}
		}
	}
	if last != 1 {
		c.Violate("no-pong", "the last ping got %d pongs", last)
	}
	c.Count("pongs", int64(pongs))
	c.Eval(fmt.Sprint("pings ", isCP, k, total, pongs/20, len(pings)/20))
}
