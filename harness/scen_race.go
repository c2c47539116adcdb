package verifharness

// C08: the whole API at once, in virtual and in real time, under the race detector.

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gorilla/websocket"
	ocpp "github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

func init() {
	register("C08", func(r *Run) {
		r.Cases("stress", r.N(160, 4000), raceStress)
		r.Plain("real", r.N(60, 1500), raceStress)
	})
}

// fmtLogger formats everything it is given, and shares nothing between goroutines.
type fmtLogger struct{ k int }

func (fmtLogger) Printf(format string, v ...interface{}) { fmt.Fprintf(io.Discard, format, v...) }

type raceRig struct {
	c     *Case
	real  bool
	step  time.Duration // all sleeps are multiples of it, so that things coincide
	n     *Net
	csys  cs.CentralSystem
	cps   []*realCP
	soapN []*Net
	calm  atomic.Bool // handlers only answer
	soaps []*realCP
	ids   []string
}

func newRand() *rand.Rand { return rand.New(rand.NewPCG(rand.Uint64(), rand.Uint64())) }

func (g *raceRig) nap(r *rand.Rand, steps int) {
	if k := r.IntN(steps + 1); k > 0 {
		time.Sleep(time.Duration(k) * g.step)
	}
}

// csHandler answers after a while, at times with an error, at times using the API.
func (g *raceRig) csHandler(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
	if g.calm.Load() {
		return answerCP(q)
	}
	r := newRand()
	g.nap(r, 2)
	_ = m.HTTPRequest.RemoteAddr + m.HTTPRequest.Header.Get("User-Agent")
	switch r.IntN(8) {
	case 0:
		return nil, errors.New("refused")
	case 1:
		if svc, err := g.csys.GetServiceOf(m.ChargePointID, ocpp.V16, ""); err == nil {
			go svc.Send(randGen(r).req(g.randOp(r, false)).(csreq.CentralSystemRequest))
		}
	case 2:
		<-g.csys.WaitConnect(g.ids[0])
	}
	return randGen(r).resp(opOfReq(q)).(cpresp.ChargePointResponse), nil
}

func (g *raceRig) cpHandler(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
	r := newRand()
	g.nap(r, 2)
	if r.IntN(8) == 0 {
		return nil, errors.New("refused")
	}
	return randGen(r).resp(opOfReq(q)).(csresp.CentralSystemResponse), nil
}

func (g *raceRig) randOp(r *rand.Rand, fromCP bool) *opDef {
	for {
		if o := ops[r.IntN(len(ops))]; o.FromCP == fromCP {
			return o
		}
	}
}

// replyRace is a scripted peer's answer to any request.
func replyRace(p *growPeer, b []byte) {
	m, err := parseOCPP(b)
	if err != nil || m.Type != 2 {
		return
	}
	switch len(m.ID) + int(m.ID[0])%5 {
	case 0:
		p.text(fmt.Sprintf(`[4,%q,"InternalError","no",{}]`, m.ID))
	default:
		p.text(fmt.Sprintf(`[3,%q,{"status":"Accepted"}]`, m.ID))
		if m.ID[0]%3 == 0 {
			p.text(fmt.Sprintf(`[3,%q,{"status":"Accepted"}]`, m.ID))
		}
	}
}

var raceOps = map[string]func(g *raceRig, r *rand.Rand){
	"cp-send": func(g *raceRig, r *rand.Rand) {
		p := g.cps[r.IntN(len(g.cps))]
		t := time.Now()
		p.Send(randGen(r).req(g.randOp(r, true)).(cpreq.ChargePointRequest))
		g.bound("Send of a charge point", t)
	},
	"cs-send": func(g *raceRig, r *rand.Rand) {
		svc, err := g.csys.GetServiceOf(g.ids[r.IntN(len(g.ids))], ocpp.V16, "")
		if err != nil {
			return
		}
		for i := 0; i < 1+r.IntN(3); i++ {
			t := time.Now()
			svc.Send(randGen(r).req(g.randOp(r, false)).(csreq.CentralSystemRequest))
			g.bound("Send of the central system", t)
		}
	},
	"soap-send": func(g *raceRig, r *rand.Rand) {
		if len(g.soaps) == 0 {
			return
		}
		o := ops15(true)[r.IntN(len(ops15(true)))]
		t := time.Now()
		g.soaps[r.IntN(len(g.soaps))].Send(randGen(r).req15(o).(cpreq.ChargePointRequest))
		g.bound("Send of a SOAP charge point", t)
	},
	"soap-cs-send": func(g *raceRig, r *rand.Rand) {
		if len(g.soaps) == 0 {
			return
		}
		svc, err := g.csys.GetServiceOf("soap", ocpp.V15, g.soapN[r.IntN(len(g.soapN))].HTTP())
		if err != nil {
			return
		}
		o := ops15(false)[r.IntN(len(ops15(false)))]
		t := time.Now()
		svc.Send(randGen(r).req15(o).(csreq.CentralSystemRequest))
		g.bound("Send of the central system over SOAP", t)
	},
	"cs-waits": func(g *raceRig, r *rand.Rand) {
		id := g.ids[r.IntN(len(g.ids))]
		wc, wd := g.csys.WaitConnect(id), g.csys.WaitDisconnect(id)
		waitSig(wc, time.Duration(1+r.IntN(3))*g.step)
		waitSig(wd, time.Duration(1+r.IntN(3))*g.step)
	},
	"cp-waits": func(g *raceRig, r *rand.Rand) {
		p := g.cps[r.IntN(len(g.cps))]
		wc, wd := p.WaitConnect(), p.WaitDisconnect()
		waitSig(wc, time.Duration(1+r.IntN(3))*g.step)
		waitSig(wd, time.Duration(1+r.IntN(3))*g.step)
	},
	"cp-reads": func(g *raceRig, r *rand.Rand) {
		p := g.cps[r.IntN(len(g.cps))]
		if p.Identity() == "" {
			panic("identity")
		}
		conn := p.Connection()
		isSig(conn.WaitClose())
		conn.RemoteAddr()
	},
	"cp-write": func(g *raceRig, r *rand.Rand) { // a program writes to the connection itself
		conn := g.cps[r.IntN(len(g.cps))].Connection()
		id := fmt.Sprintf("own-%x", r.Uint64())
		if r.IntN(3) == 0 {
			for i := 0; i < 8; i++ {
				conn.WriteMessage(websocket.PingMessage, []byte("own"))
			}
		} else if r.IntN(2) == 0 {
			conn.WriteJSON([]any{2, id, "Heartbeat", map[string]any{}})
		} else {
			conn.WriteMessage(websocket.TextMessage, []byte(fmt.Sprintf(`[2,%q,"Authorize",{"idTag":"own"}]`, id)))
		}
	},
	"status": func(g *raceRig, r *rand.Rand) {
		conn, err := net.Dial("tcp", g.n.Host())
		if err != nil {
			return
		}
		defer conn.Close()
		io.WriteString(conn, "GET / HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
		conn.SetReadDeadline(time.Now().Add(time.Minute))
		io.Copy(io.Discard, conn)
	},
	"listeners": func(g *raceRig, r *rand.Rand) {
		k := r.IntN(3)
		f := func(id string) {
			if k == 1 {
				g.csys.GetServiceOf(id, ocpp.V16, "")
			}
			if k == 2 {
				<-g.csys.WaitDisconnect(id)
			}
		}
		if r.IntN(2) == 0 {
			g.csys.SetChargePointConnectionListener(f)
		} else {
			g.csys.SetChargePointDisconnectionListener(f)
		}
	},
	"loggers": func(g *raceRig, r *rand.Rand) {
		if r.IntN(2) == 0 {
			ocpp.SetDebugLogger(fmtLogger{r.IntN(2)})
		} else {
			ocpp.SetErrorLogger(fmtLogger{r.IntN(2)})
		}
	},
	"disconnect": func(g *raceRig, r *rand.Rand) {
		p := g.cps[r.IntN(len(g.cps))]
		conn := p.Connection()
		switch r.IntN(4) {
		case 0:
			conn.Close()
		case 1:
			conn.UnderlyingConn().Close()
		default:
			if l, ok := conn.UnderlyingConn().(*simConn); ok {
				switch r.IntN(3) {
				case 0:
					l.link.Reset()
				case 1:
					l.link.C2S.CutAfter(r.IntN(300))
				case 2:
					l.link.S2C.CutAfter(r.IntN(300))
				}
			}
		}
		g.nap(r, 5)
	},
	"raw": func(g *raceRig, r *rand.Rand) { // a scripted charge point comes, talks and goes
		d := websocket.Dialer{Subprotocols: []string{"ocpp1.6"}}
		s, _, err := d.Dial(g.n.WS()+"/"+g.ids[r.IntN(len(g.ids))], nil)
		if err != nil {
			return
		}
		p := &growPeer{ws: s, done: make(chan struct{}), f: replyRace}
		go p.pump()
		for i := 0; i < r.IntN(6); i++ {
			switch r.IntN(7) {
			case 6:
				p.mu.Lock()
				for j := 0; j < 10; j++ {
					s.WriteMessage(websocket.PingMessage, []byte("x"))
				}
				p.mu.Unlock()
			case 0:
				p.text(`[2,"x","Nothing",{}]`)
			case 1:
				p.text(`[3,"x",{}]`)
			case 2:
				p.text(`{"junk`)
			case 3:
				p.text(`[2,"x","ClearCache",{}]`)
			default:
				p.text(`[2,"x","Authorize",{"idTag":"t1"}]`)
			}
			g.nap(r, 1)
		}
		switch r.IntN(3) {
		case 0:
			s.UnderlyingConn().(*simConn).link.Reset()
		case 1:
			p.mu.Lock()
			s.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""))
			p.mu.Unlock()
		}
		s.Close()
		<-p.done
	},
	"second-cp": func(g *raceRig, r *rand.Rand) { // a charge point starts and is cancelled
		t := time.Now()
		p, err := g.c.startCP(g.n, cpOpt{ID: g.ids[r.IntN(len(g.ids))], Handler: g.cpHandler})
		if err != nil {
			return
		}
		g.bound("the constructor", t)
		if r.IntN(2) == 0 {
			go p.Send(&cpreq.Heartbeat{})
		}
		g.nap(r, 3)
		p.Cancel()
		if r.IntN(2) == 0 {
			p.Send(&cpreq.Heartbeat{})
		}
	},
	"outage": func(g *raceRig, r *rand.Rand) {
		if r.IntN(3) > 0 {
			return
		}
		g.n.Refuse(true)
		g.nap(r, 3)
		g.n.Refuse(false)
	},
	"bad-http": func(g *raceRig, r *rand.Rand) {
		conn, err := net.Dial("tcp", g.n.Host())
		if err != nil {
			return
		}
		defer conn.Close()
		io.WriteString(conn, "POST / HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: 4\r\n\r\n<a/>")
		conn.SetReadDeadline(time.Now().Add(time.Minute))
		io.Copy(io.Discard, conn)
	},
}

func (g *raceRig) bound(what string, t time.Time) {
	if !g.real && time.Since(t) > 75*time.Second {
		g.c.Violate("call-hangs", "%s returned only after %v", what, time.Since(t))
	}
}

func raceStress(c *Case) {
	g := &raceRig{c: c, real: !c.InBubble, step: 10 * ms}
	if g.real {
		g.step = 200 * time.Microsecond
	}
	ocpp.SetDebugLogger(fmtLogger{})
	ocpp.SetErrorLogger(fmtLogger{})
	defer func() {
		ocpp.SetDebugLogger(&theLogger)
		ocpp.SetErrorLogger(&theLogger)
	}()
	c.R.IntN(2)
	newNet := func() *Net {
		n := c.NewNet()
		n.Forget()
		switch c.R.IntN(3) {
		case 1:
			n.Latency = func(bool) time.Duration { return g.step }
		case 2:
			n.Latency = func(bool) time.Duration { return time.Duration(rand.IntN(3)) * g.step }
		}
		if c.R.IntN(4) == 0 {
			n.Chunk = func(bool) int { return 1 + rand.IntN(300) }
		}
		return n
	}
	g.n = newNet()
	k := 1 + c.R.IntN(4)
	for i := 0; i < k; i++ {
		g.ids = append(g.ids, fmt.Sprint("cp", i%(1+c.R.IntN(3))))
	}
	before := httpPanics.Load()
	g.csys = c.startCS(g.n, g.csHandler)
	for _, id := range g.ids {
		p, err := c.startCP(g.n, cpOpt{ID: id, Handler: g.cpHandler})
		if err != nil {
			c.Violate("cp-new-failed", "a charge point could not start on a working network: %v", err)
			return
		}
		g.cps = append(g.cps, p)
	}
	for i := 0; i < c.R.IntN(3); i++ {
		m := newNet()
		a := m.Addr()
		p, err := c.startCP(g.n, cpOpt{ID: "soap", SOAP: true, Port: &a, Handler: g.cpHandler})
		if err != nil || !waitListening(m) {
			c.Violate("cp-not-listening", "the SOAP charge point does not listen (%v)", err)
			return
		}
		g.soaps, g.soapN = append(g.soaps, p), append(g.soapN, m)
	}
	var names []string
	for k := range raceOps {
		names = append(names, k)
	}
	sort.Strings(names)
	// each execution stresses a random selection, with random weights
	var pool []string
	used := map[string]bool{}
	for _, k := range names {
		w := []int{0, 0, 1, 1, 3, 8}[c.R.IntN(6)]
		if k == "loggers" && c.R.IntN(2) == 0 {
			w = 0 // setting the loggers orders the goroutines that log
		}
		for i := 0; i < w; i++ {
			pool = append(pool, k)
		}
		used[k] = w > 0
	}
	if len(pool) == 0 {
		pool = append(pool, "cp-send", "cs-send")
	}
	workers := 4 + c.R.IntN(20)
	each := 10 + c.R.IntN(20)
	if g.real {
		each *= 3
	}
	var wg sync.WaitGroup
	counts := make([]map[string]int, workers)
	for w := 0; w < workers; w++ {
		r := rand.New(rand.NewPCG(c.R.Uint64(), c.R.Uint64()))
		m := map[string]int{}
		counts[w] = m
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < each; i++ {
				k := pool[r.IntN(len(pool))]
				raceOps[k](g, r)
				m[k]++
				g.nap(r, 1)
			}
		}()
	}
	all := c.Go(wg.Wait)
	if g.real {
		<-all.done
	} else if !all.Within(3 * time.Hour) {
		c.Violate("call-hangs", "an API call has not returned for hours:\n%s", firstWorker())
		return
	}
	total := 0
	for _, m := range counts {
		for k, v := range m {
			c.Count("op_"+k, int64(v))
			total += v
		}
	}
	// it all still works
	g.n.Refuse(false)
	for i := range g.cps { // not hurried: it may be in the middle of reconnecting
		d := 5 * time.Minute
		if g.real {
			d = 20 * time.Second
		}
		if !waitSig(g.cps[i].WaitConnect(), d) && !g.real {
			c.Violate("dead-after", "after the stress a charge point does not reconnect")
		}
	}
	p, err := c.startCP(g.n, cpOpt{ID: "probe", Handler: func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) { return answerCS(q) }})
	if err != nil {
		c.Violate("dead-after", "after the stress a new charge point cannot connect: %v", err)
		return
	}
	probe := func(what string, s *sent) {
		if !s.Within(2*time.Minute) && g.real {
			c.Inconclusive("after the stress %s takes more than two minutes", what)
		} else if !s.Done() || s.Err != nil {
			c.Violate("dead-after", "after the stress %s: returned %v, %v", what, s.Done(), s.Err)
		}
	}
	var svc csService
	for i := 0; i < 1000 && svc == nil; i++ {
		if x, err := g.csys.GetServiceOf("probe", ocpp.V16, ""); err == nil {
			svc = x
		} else {
			time.Sleep(10 * ms)
		}
	}
	if svc == nil {
		c.Violate("dead-after", "after the stress a new charge point is not registered")
	} else {
		probe("a request to a new charge point", c.sendCS(svc, &csreq.ClearCache{}))
	}
	g.calm.Store(true)
	probe("Send of a new charge point", c.sendCP(p, &cpreq.Heartbeat{}))
	p.Cancel()
	for _, p := range append(g.cps, g.soaps...) {
		p.Cancel()
	}
	c.checkHTTPPanics(before)
	var u []string
	for k, on := range used {
		if on {
			u = append(u, k)
		}
	}
	sort.Strings(u)
	kind := "virtual "
	if g.real {
		kind = "real "
		time.Sleep(20 * ms)
	} else {
		settle(5 * time.Minute)
	}
	c.Count("api_operations", int64(total))
	c.Eval(fmt.Sprint(kind, workers, g.ids, len(g.soaps), u))
	c.Sample("%s: %d goroutines, %d operations on %d JSON and %d SOAP charge points: %v", strings.TrimSpace(kind), workers, total, len(g.cps), len(g.soaps), u)
}

func firstWorker() string {
	for _, s := range bubbleGoroutines() {
		if strings.Contains(s, "verifharness.raceStress") && strings.Contains(s, "\n"+subject) {
			return s
		}
	}
	return strings.Join(bubbleGoroutines(), "\n\n")
}
