package verifharness

// Wire monitor: decodes what the taps recorded on a link into HTTP headers,
// WebSocket frames and OCPP-J messages, and checks their form.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strings"
	"time"
	"unicode/utf8"
)

type wsMsg struct {
	Op   int
	Data []byte
	Seq  int64 // tap sequence of the write that completed the message
	At   time.Time
}

type wireView struct {
	Header string // HTTP head
	Msgs   []wsMsg
	Err    string // first framing error
	Rest   int    // trailing bytes of an unfinished frame
}

func (v wireView) Status() string {
	if i := strings.Index(v.Header, "\r\n"); i >= 0 {
		return v.Header[:i]
	}
	return v.Header
}

func (v wireView) HeaderValues(name string) []string {
	var out []string
	for _, l := range strings.Split(v.Header, "\r\n")[1:] {
		if k, val, ok := strings.Cut(l, ":"); ok && strings.EqualFold(strings.TrimSpace(k), name) {
			out = append(out, strings.TrimSpace(val))
		}
	}
	return out
}

// parseWire decodes one direction of a WebSocket connection.
func parseWire(segs []tapSeg, fromClient bool) (v wireView) {
	var b []byte
	type mark struct {
		end int
		s   tapSeg
	}
	var marks []mark
	for _, s := range segs {
		b = append(b, s.Data...)
		marks = append(marks, mark{len(b), s})
	}
	at := func(end int) tapSeg {
		for _, m := range marks {
			if m.end >= end {
				return m.s
			}
		}
		return tapSeg{}
	}
	i := bytes.Index(b, []byte("\r\n\r\n"))
	if i < 0 {
		v.Header = string(b)
		return v
	}
	v.Header = string(b[:i])
	pos := i + 4
	if !fromClient && !strings.Contains(v.Status(), " 101") {
		return v
	}
	var part []byte
	partOp := -1
	for pos < len(b) {
		if len(b)-pos < 2 {
			break
		}
		h0, h1 := b[pos], b[pos+1]
		fin, op, masked := h0&0x80 != 0, int(h0&15), h1&0x80 != 0
		if h0&0x70 != 0 {
			v.Err = fmt.Sprintf("reserved bits set in frame header %02x at offset %d", h0, pos)
			return v
		}
		if masked != fromClient {
			v.Err = fmt.Sprintf("frame at offset %d has mask=%v", pos, masked)
			return v
		}
		n := int(h1 & 0x7f)
		hl := 2
		if n == 126 {
			if len(b)-pos < 4 {
				break
			}
			n = int(binary.BigEndian.Uint16(b[pos+2:]))
			hl = 4
		} else if n == 127 {
			if len(b)-pos < 10 {
				break
			}
			n64 := binary.BigEndian.Uint64(b[pos+2:])
			if n64 > 1<<30 {
				v.Err = fmt.Sprintf("frame at offset %d claims %d bytes", pos, n64)
				return v
			}
			n = int(n64)
			hl = 10
		}
		var key []byte
		if masked {
			if len(b)-pos < hl+4 {
				break
			}
			key = b[pos+hl : pos+hl+4]
			hl += 4
		}
		if len(b)-pos < hl+n {
			break
		}
		data := append([]byte(nil), b[pos+hl:pos+hl+n]...)
		if masked {
			for i := range data {
				data[i] ^= key[i&3]
			}
		}
		pos += hl + n
		switch {
		case op >= 8:
			if !fin || n > 125 {
				v.Err = "invalid control frame"
				return v
			}
			s := at(pos)
			v.Msgs = append(v.Msgs, wsMsg{op, data, s.Seq, s.At})
		case op == 0:
			if partOp < 0 {
				v.Err = fmt.Sprintf("continuation frame without a start before offset %d", pos)
				return v
			}
			part = append(part, data...)
			if fin {
				s := at(pos)
				v.Msgs = append(v.Msgs, wsMsg{partOp, part, s.Seq, s.At})
				part, partOp = nil, -1
			}
		case op == 1 || op == 2:
			if partOp >= 0 {
				v.Err = fmt.Sprintf("new message inside a fragmented one before offset %d", pos)
				return v
			}
			if fin {
				s := at(pos)
				v.Msgs = append(v.Msgs, wsMsg{op, data, s.Seq, s.At})
			} else {
				part, partOp = data, op
			}
		default:
			v.Err = fmt.Sprintf("unknown opcode %d", op)
			return v
		}
	}
	v.Rest = len(b) - pos
	return v
}

// ocppMsg is one OCPP-J message.
type ocppMsg struct {
	Type    int
	ID      string
	Action  string
	Payload json.RawMessage
	Code    string
	Desc    string
	Details json.RawMessage
	Raw     string
	Seq     int64
	At      time.Time
}

func (m *ocppMsg) String() string {
	if len(m.Raw) > 300 {
		return m.Raw[:300] + "…"
	}
	return m.Raw
}

// parseOCPP is strict: exact length, exact types.
func parseOCPP(b []byte) (*ocppMsg, error) {
	m := &ocppMsg{Raw: string(b)}
	if !utf8.Valid(b) {
		return nil, fmt.Errorf("not UTF-8: %.200q", b)
	}
	var f []json.RawMessage
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, fmt.Errorf("not a JSON array (%v): %.200q", err, b)
	}
	if len(f) < 3 {
		return nil, fmt.Errorf("%d elements: %.200q", len(f), b)
	}
	if err := json.Unmarshal(f[0], &m.Type); err != nil {
		return nil, fmt.Errorf("message type %s", f[0])
	}
	str := func(r json.RawMessage, p *string) bool {
		return len(r) > 0 && r[0] == '"' && json.Unmarshal(r, p) == nil
	}
	obj := func(r json.RawMessage) bool {
		t := bytes.TrimSpace(r)
		return len(t) > 0 && t[0] == '{'
	}
	if !str(f[1], &m.ID) || m.ID == "" {
		return nil, fmt.Errorf("message ID %s", f[1])
	}
	want := map[int]int{2: 4, 3: 3, 4: 5}[m.Type]
	if len(f) != want {
		return nil, fmt.Errorf("type %d with %d elements: %.200q", m.Type, len(f), b)
	}
	switch m.Type {
	case 2:
		if !str(f[2], &m.Action) || !obj(f[3]) {
			return nil, fmt.Errorf("bad CALL: %.200q", b)
		}
		m.Payload = f[3]
	case 3:
		if !obj(f[2]) {
			return nil, fmt.Errorf("bad CALLRESULT: %.200q", b)
		}
		m.Payload = f[2]
	case 4:
		if !str(f[2], &m.Code) || !str(f[3], &m.Desc) || !obj(f[4]) {
			return nil, fmt.Errorf("bad CALLERROR: %.200q", b)
		}
		m.Details = f[4]
	}
	return m, nil
}

var errorCodes = map[string]bool{"NotImplemented": true, "NotSupported": true, "InternalError": true, "ProtocolError": true,
	"SecurityError": true, "FormationViolation": true, "PropertyConstraintViolation": true,
	"OccurenceConstraintViolation": true, "TypeConstraintViolation": true, "GenericError": true}

// linkTrace is what one WebSocket connection carried.
type linkTrace struct {
	Link     *Link
	Up       wireView // client to server
	Down     wireView
	UpMsgs   []*ocppMsg
	DownMsgs []*ocppMsg
}

// checkLink decodes a link and checks the form of the text messages of the
// directions written by the code under test.
func (c *Case) checkLink(l *Link, upIsSubject, downIsSubject bool) *linkTrace {
	t := &linkTrace{Link: l}
	t.Up = parseWire(l.C2S.TapSegs(), true)
	t.Down = parseWire(l.S2C.TapSegs(), false)
	conv := func(v wireView, dir string, subj bool) (out []*ocppMsg) {
		if subj && v.Err != "" {
			c.Violate("wire:framing", "%s of link %d: %s", dir, l.ID, v.Err)
		}
		for _, m := range v.Msgs {
			if m.Op == 1 || m.Op == 2 {
				o, err := parseOCPP(m.Data)
				if err != nil {
					if subj {
						c.Violate("wire:form", "%s of link %d: %v", dir, l.ID, err)
					}
					continue
				}
				if subj && m.Op != 1 {
					c.Violate("wire:binary", "%s of link %d: OCPP message in a binary frame: %s", dir, l.ID, o)
				}
				if subj && o.Type == 4 && !errorCodes[o.Code] {
					c.Violate("wire:errorcode", "%s of link %d: unknown error code in %s", dir, l.ID, o)
				}
				o.Seq, o.At = m.Seq, m.At
				out = append(out, o)
			}
		}
		c.Count("wire_messages_checked", int64(len(v.Msgs)))
		return out
	}
	t.UpMsgs = conv(t.Up, "client->server", upIsSubject)
	t.DownMsgs = conv(t.Down, "server->client", downIsSubject)
	pair := func(calls, answers []*ocppMsg, dir string, subjCalls, subjAnswers bool) {
		asked := map[string]*ocppMsg{}
		for _, m := range calls {
			if m.Type == 2 {
				if subjCalls && asked[m.ID] != nil {
					c.Violate("wire:reused-id", "%s link %d: CALL ID %s used twice", dir, l.ID, m.ID)
				}
				if asked[m.ID] == nil {
					asked[m.ID] = m
				}
			}
		}
		if !subjAnswers {
			return
		}
		for _, m := range answers {
			if m.Type != 3 && m.Type != 4 {
				continue
			}
			q := asked[m.ID]
			if q == nil {
				c.Violate("wire:orphan-answer", "%s link %d: answer to a CALL that was never sent: %s", dir, l.ID, m)
			} else if m.Seq < q.Seq {
				c.Violate("wire:early-answer", "%s link %d: answer before the CALL: %s", dir, l.ID, m)
			}
		}
	}
	pair(t.UpMsgs, t.DownMsgs, "client calls", upIsSubject, downIsSubject)
	pair(t.DownMsgs, t.UpMsgs, "server calls", downIsSubject, upIsSubject)
	return t
}

// answersTo counts the answers to each message ID.
func answersTo(msgs []*ocppMsg) map[string][]*ocppMsg {
	out := map[string][]*ocppMsg{}
	for _, m := range msgs {
		if m.Type != 2 {
			out[m.ID] = append(out[m.ID], m)
		}
	}
	return out
}
