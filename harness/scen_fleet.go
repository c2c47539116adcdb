package verifharness

// C09, C10: many charge points at once.

import (
	"fmt"
	"strings"
	"sync"
	"time"

	ocpp "github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
)

func fleetCase(c *Case) {
	n := c.NewNet()
	nd := c.randNet(n)
	k := 10 + c.R.IntN(50)
	if c.R.IntN(4) == 0 {
		k = 100 + c.R.IntN(300)
	}
	if c.Kind == "huge" {
		n.Forget()
		k = 1050 + c.R.IntN(1500)
	}
	var mu sync.Mutex
	calls := [2]map[string]int{{}, {}}
	gate := make(chan struct{})
	released := false
	release := func() {
		if !released {
			released = true
			close(gate)
		}
	}
	c.Defer(release)
	slow := c.R.IntN(3) // which share of the listeners' calls blocks
	lr := rngFor(c.Seed, c.Kind, c.Idx, "listener")
	listener := func(which int) func(string) {
		return func(id string) {
			mu.Lock()
			calls[which][id]++
			block := lr.IntN(3) < slow
			mu.Unlock()
			if block {
				<-gate
			}
		}
	}
	csys := c.startCS(n, nil)
	csys.SetChargePointConnectionListener(listener(0))
	csys.SetChargePointDisconnectionListener(listener(1))

	id := func(i int) string { return fmt.Sprint("cp", i) }
	conns := make([]*peer, k)
	opened, ended := make([]int, k), make([]int, k)
	type wait struct {
		i     int
		ch    <-chan struct{}
		since int // connections before the call
		on    bool
	}
	var waits []wait
	nWaits := 0
	askAll := func() { // also for as many that never come
		for _, i := range c.R.Perm(2 * k) {
			if i < k {
				waits = append(waits, wait{i, csys.WaitConnect(id(i)), opened[i], conns[i] != nil})
			} else {
				waits = append(waits, wait{i, csys.WaitConnect(id(i)), 0, false})
			}
			nWaits++
		}
	}
	var trace []string
	check := func() {
		settle(2 * time.Second)
		tr := strings.Join(trace, ", ")
		up := 0
		for i := 0; i < k; i++ {
			if conns[i] != nil {
				up++
			}
			_, err := csys.GetServiceOf(id(i), ocpp.V16, "")
			if c.Prop == "C09" && (err == nil) != (conns[i] != nil) {
				c.Violate("fleet-registry", "%d charge points (%s): %s is connected: %v, GetServiceOf: %v", k, tr, id(i), conns[i] != nil, err)
			}
			mu.Lock()
			a, b := calls[0][id(i)], calls[1][id(i)]
			mu.Unlock()
			if c.Prop == "C10" && (a != opened[i] || b != ended[i]) {
				c.Violate("fleet-calls", "%d charge points (%s): %s connected %d times and disconnected %d times, the listeners were called %d and %d times", k, tr, id(i), opened[i], ended[i], a, b)
			}
			c.Run.Count("fleet_probes", 1)
		}
		if c.Prop != "C09" {
			return
		}
		if got, s := c.statusCount(n); got != up {
			c.Violate("fleet-status", "%d charge points are connected, the status page says %d: %.200q", up, got, s)
		}
		for _, w := range waits {
			want := w.on || w.i < k && opened[w.i] > w.since
			if got := isSig(w.ch); got != want {
				c.Violate("fleet-waitconnect", "%d charge points (%s): WaitConnect(%q), one of %d such channels, signalled=%v, should be %v", k, tr, id(w.i), nWaits, got, want)
			}
			c.Run.Count("wait_channels_checked", 1)
		}
		// some of them are asked something
		for j := 0; j < 5; j++ {
			i := c.R.IntN(k)
			if conns[i] == nil {
				continue
			}
			svc, err := csys.GetServiceOf(id(i), ocpp.V16, "")
			if err != nil {
				continue // reported above
			}
			p := conns[i]
			tag := fmt.Sprintf("k%d-%d", len(trace), j)
			s := c.sendCS(svc, &csreq.ChangeConfiguration{Key: tag, Value: "v"})
			m := p.Wait(5*time.Second, func(m *ocppMsg) bool { return m.Type == 2 && strings.Contains(string(m.Payload), tag) })
			if m == nil {
				c.Violate("fleet-misdelivered", "%d charge points: a request to %s did not arrive there", k, id(i))
				continue
			}
			p.Reply(m.ID, map[string]any{"status": "Accepted"})
			if !s.Within(5*time.Second) || s.Err != nil {
				c.Violate("fleet-unreachable", "%d charge points: a request to %s: %v", k, id(i), s.Err)
			}
		}
	}
	askAll()
	for round := 0; round < 1+c.R.IntN(3) && !c.Bad(); round++ {
		up, down := 0, 0
		for j, i := range c.R.Perm(k) {
			if j%100 == 0 {
				progress.Add(1)
			}
			switch {
			case conns[i] == nil && c.R.IntN(4) > 0:
				p, err := c.rawCP(n, id(i))
				if err != nil {
					c.Violate("dial", "charge point %d of %d could not connect: %v", i, k, err)
					return
				}
				conns[i] = p
				opened[i]++
				up++
			case conns[i] != nil && c.R.IntN(3) > 0:
				if c.R.IntN(2) == 0 {
					conns[i].link().Reset()
				} else {
					conns[i].Close()
				}
				conns[i] = nil
				ended[i]++
				down++
			}
		}
		trace = append(trace, fmt.Sprintf("%d connect, %d disconnect", up, down))
		check()
		if c.R.IntN(4) == 0 { // nothing happens for long
			d := []time.Duration{40 * time.Minute, 7 * time.Hour, 30 * time.Hour, 40 * 24 * time.Hour}[c.R.IntN(4)]
			time.Sleep(d)
			trace = append(trace, fmt.Sprint(d, " idle"))
			check()
		}
		if c.R.IntN(2) == 0 {
			waits = nil
			askAll()
		}
	}
	for i, p := range conns {
		if p != nil {
			p.Close()
			conns[i] = nil
			ended[i]++
		}
	}
	trace = append(trace, "all disconnect")
	check()
	release()
	check()
	c.Eval(fmt.Sprint("fleet ", k, slow, trace, nd))
	c.Sample("fleet of %d: %s", k, strings.Join(trace, ", "))
}
