package verifharness

// Messages: the table of OCPP operations, value generators, an encoder and a
// comparison that do not use go-ocpp's codecs.

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

type opDef struct {
	Action string
	FromCP bool // sent by the charge point
	Req    reflect.Type
	Resp   reflect.Type
	V15    bool // exists in OCPP 1.5 (SOAP)
}

func (o *opDef) Name() string {
	if o.FromCP {
		return "cp." + o.Action
	}
	return "cs." + o.Action
}

func op(action string, fromCP bool, req, resp any, v15 bool) *opDef {
	return &opDef{Action: action, FromCP: fromCP, Req: reflect.TypeOf(req), Resp: reflect.TypeOf(resp), V15: v15}
}

var ops = []*opDef{
	op("Authorize", true, cpreq.Authorize{}, cpresp.Authorize{}, true),
	op("BootNotification", true, cpreq.BootNotification{}, cpresp.BootNotification{}, true),
	op("DataTransfer", true, cpreq.DataTransfer{}, cpresp.DataTransfer{}, true),
	op("DiagnosticsStatusNotification", true, cpreq.DiagnosticsStatusNotification{}, cpresp.DiagnosticsStatusNotification{}, true),
	op("FirmwareStatusNotification", true, cpreq.FirmwareStatusNotification{}, cpresp.FirmwareStatusNotification{}, true),
	op("Heartbeat", true, cpreq.Heartbeat{}, cpresp.Heartbeat{}, true),
	op("MeterValues", true, cpreq.MeterValues{}, cpresp.MeterValues{}, true),
	op("StartTransaction", true, cpreq.StartTransaction{}, cpresp.StartTransaction{}, true),
	op("StatusNotification", true, cpreq.StatusNotification{}, cpresp.StatusNotification{}, true),
	op("StopTransaction", true, cpreq.StopTransaction{}, cpresp.StopTransaction{}, true),
	op("CancelReservation", false, csreq.CancelReservation{}, csresp.CancelReservation{}, true),
	op("ChangeAvailability", false, csreq.ChangeAvailability{}, csresp.ChangeAvailability{}, true),
	op("ChangeConfiguration", false, csreq.ChangeConfiguration{}, csresp.ChangeConfiguration{}, true),
	op("ClearCache", false, csreq.ClearCache{}, csresp.ClearCache{}, true),
	op("ClearChargingProfile", false, csreq.ClearChargingProfile{}, csresp.ClearChargingProfile{}, false),
	op("DataTransfer", false, csreq.DataTransfer{}, csresp.DataTransfer{}, true),
	op("GetCompositeSchedule", false, csreq.GetCompositeSchedule{}, csresp.GetCompositeSchedule{}, false),
	op("GetConfiguration", false, csreq.GetConfiguration{}, csresp.GetConfiguration{}, true),
	op("GetDiagnostics", false, csreq.GetDiagnostics{}, csresp.GetDiagnostics{}, true),
	op("GetLocalListVersion", false, csreq.GetLocalListVersion{}, csresp.GetLocalListVersion{}, true),
	op("RemoteStartTransaction", false, csreq.RemoteStartTransaction{}, csresp.RemoteStartTransaction{}, true),
	op("RemoteStopTransaction", false, csreq.RemoteStopTransaction{}, csresp.RemoteStopTransaction{}, true),
	op("ReserveNow", false, csreq.ReserveNow{}, csresp.ReserveNow{}, true),
	op("Reset", false, csreq.Reset{}, csresp.Reset{}, true),
	op("SendLocalList", false, csreq.SendLocalList{}, csresp.SendLocalList{}, true),
	op("SetChargingProfile", false, csreq.SetChargingProfile{}, csresp.SetChargingProfile{}, false),
	op("TriggerMessage", false, csreq.TriggerMessage{}, csresp.TriggerMessage{}, false),
	op("UnlockConnector", false, csreq.UnlockConnector{}, csresp.UnlockConnector{}, true),
	op("UpdateFirmware", false, csreq.UpdateFirmware{}, csresp.UpdateFirmware{}, true),
}

func findOp(action string, fromCP bool) *opDef {
	for _, o := range ops {
		if o.Action == action && o.FromCP == fromCP {
			return o
		}
	}
	return nil
}

func opOfReq(r any) *opDef {
	t := reflect.TypeOf(r).Elem()
	for _, o := range ops {
		if o.Req == t {
			return o
		}
	}
	return nil
}

func (o *opDef) NewReq() messages.Request { return reflect.New(o.Req).Interface().(messages.Request) }
func (o *opDef) NewResp() messages.Response {
	return reflect.New(o.Resp).Interface().(messages.Response)
}

// propName is the OCPP 1.6 property of a Go field.
func propName(goField string) string {
	if goField == "SampledValues" {
		return "sampledValue"
	}
	return strings.ToLower(goField[:1]) + goField[1:]
}

var timeType = reflect.TypeOf(time.Time{})
var xmlNameType = reflect.TypeOf(xml.Name{})

// fieldsOf are the message fields of a struct type.
func fieldsOf(t reflect.Type) (out []reflect.StructField) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" || f.Anonymous || f.Type == xmlNameType {
			continue
		}
		out = append(out, f)
	}
	return
}

// ---------------------------------------------------------------- generation

type genMode int

const (
	genRandom  genMode = iota // each optional field present with probability 1/2
	genMinimal                // only required fields
	genFull                   // every field non-zero
)

type gen struct {
	R          *rand.Rand
	Mode       genMode
	Lists      bool // no empty required list
	Valid      bool // values allowed by the schema (enums, maxLength, integral numbers)
	XML        bool // values XML can carry
	Zeros      bool // required numbers are often zero
	Edge       bool // prefer extreme values
	MaxList    int
	EmptyLists bool    // required lists may be nil
	Errs       []error // errors of the library to return from handlers
	Long       int     // very long texts in a message
	longLeft   int
	budget     int // elements of long lists left in this message
	// tag, when set, is put into some string field so that a message is recognisable
}

func (g *gen) p(num, den int) bool { return g.R.IntN(den) < num }

var baseTime = time.Date(2019, 10, 1, 12, 0, 0, 0, time.UTC)

func (g *gen) time() time.Time {
	var t time.Time
	switch g.R.IntN(6) {
	case 0:
		t = baseTime
	case 1:
		t = time.Date(1+g.R.IntN(9998), time.Month(1+g.R.IntN(12)), 1+g.R.IntN(28), g.R.IntN(24), g.R.IntN(60), g.R.IntN(60), g.R.IntN(1e9), time.UTC)
	case 2:
		t = time.Date(2000+g.R.IntN(60), 2, 28+g.R.IntN(2), 23, 59, 59, 999999999, time.UTC)
	default:
		t = baseTime.Add(time.Duration(g.R.Int64N(1e17)))
		if g.p(1, 2) {
			t = t.Truncate(time.Second)
		}
	}
	switch g.R.IntN(5) {
	case 0:
		t = t.In(time.FixedZone("", 5*3600+30*60))
	case 1:
		t = t.In(time.FixedZone("", -(9*3600 + 30*60)))
	case 2:
		t = t.In(time.FixedZone("X", (g.R.IntN(2*1439)-1439)*60))
		if g.p(1, 4) { // local mean time, as zones had it once
			t = t.In(time.FixedZone("LMT", g.R.IntN(2*86399)-86399))
		}
	}
	if t.Year() < 1 || t.Year() > 9999 || t.IsZero() {
		t = baseTime
	}
	return t
}

var interesting = []string{
	"", "a", "0", "true", "null", " ", "  leading and trailing  ", "two\nlines", "tab\there", "cr\rlf\r\n", `"quoted"`, `back\slash`,
	"<xml>&amp;</xml>", "]]>", "<![CDATA[x]]>", "é", "日本語テキスト", "emoji 😀👩‍👩‍👧", "\u2028\u2029", "\u0080\u009f", "\ufffd", "a/b?c=d&e=f#g", "%41%zz", "{\"json\":[1,2]}",
	"[2,\"id\",\"Heartbeat\",{}]", "'; DROP TABLE--", "İıſK", "\u200f\u202e", "e\u0301", "-0", "1e400", "NaN",
}

func (g *gen) str() string {
	var s string
	k := g.R.IntN(5)
	if g.longLeft > 0 && g.p(1, 2) {
		g.longLeft--
		k = 5
	}
	switch k {
	case 5:
		n := []int{5000, 32767, 32768, 65535, 65536, 65537, 100000, 300000, 1<<20 + 1, 3 << 20}[g.R.IntN(10)]
		unit := []string{"a", "é", "日本", "😀", "\n", `"`, "<&>", "x\ny ", "ab\\", "line\r\n"}[g.R.IntN(10)]
		s = strings.Repeat(unit, n/len(unit)) + fmt.Sprint("end", n)
	case 0, 1:
		s = interesting[g.R.IntN(len(interesting))]
	case 2:
		n := 1 + g.R.IntN(30)
		b := make([]rune, n)
		for i := range b {
			b[i] = rune('!' + g.R.IntN(94))
		}
		s = string(b)
	case 3:
		n := 1 + g.R.IntN(12)
		for i := 0; i < n; i++ {
			r := rune(g.R.IntN(0x2ffff))
			if r >= 0xd800 && r < 0xe000 || r == 0 {
				r = 'z'
			}
			s += string(r)
		}
	case 4:
		n := 40 + g.R.IntN(300)
		if g.Edge && g.p(1, 4) {
			n = 3000 + g.R.IntN(3000)
		}
		s = strings.Repeat(string(rune('a'+g.R.IntN(26))), n)
	}
	if g.XML {
		s = strings.Map(func(r rune) rune {
			if r == '\t' || r == '\n' || r == '\r' || r >= 0x20 && r <= 0xd7ff || r >= 0xe000 && r <= 0xfffd || r >= 0x10000 {
				return r
			}
			return 'x'
		}, s)
	}
	return s
}

func (g *gen) nonEmpty(f func() string) string {
	for i := 0; i < 50; i++ {
		if s := f(); s != "" {
			return s
		}
	}
	return "x"
}

func (g *gen) integer(bits int) int64 {
	max := int64(math.MaxInt64)
	if g.XML {
		max = 1<<53 - 1
	}
	if bits == 32 {
		max = math.MaxInt32
	}
	switch g.R.IntN(6) {
	case 0:
		return 0
	case 1:
		return 1 + g.R.Int64N(100)
	case 2:
		return -1 - g.R.Int64N(100)
	case 3:
		e := []int64{max, -max, max - 1, 1<<53 + 1, -(1<<53 + 1), 1 << 31 & max, 1<<31 - 1, -(1 << 31) % max, 1 << 16, 65535, 999999, 1000000, 10000000}
		v := e[g.R.IntN(len(e))]
		if v > max || v < -max {
			v = max
		}
		return v
	}
	v := g.R.Int64N(max)
	if g.R.IntN(2) == 0 {
		v = -v
	}
	return v >> g.R.IntN(bits-1)
}

func (g *gen) float() float64 {
	switch g.R.IntN(7) {
	case 0:
		return 0
	case 1:
		return float64(g.R.IntN(1000))
	case 2:
		return float64(g.R.IntN(100000)) / 10
	case 3:
		return -g.R.Float64() * 1000
	case 4:
		return g.R.Float64()
	case 5:
		e := []float64{1e21, 1e20, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1.0 / 3, 123456789.123456, 1 << 53, 2147483648, -1e-6}
		return e[g.R.IntN(len(e))]
	}
	return math.Float64frombits(g.R.Uint64N(0x7fe0000000000000))
}

// fill sets v (a struct) from the schema of the message.
func (g *gen) fill(v reflect.Value, s *schema) {
	for _, f := range fieldsOf(v.Type()) {
		fs := s.prop(propName(f.Name))
		req := s.requires(propName(f.Name))
		if fs == nil {
			fs = &schema{}
		}
		present := req
		if !req {
			switch g.Mode {
			case genFull:
				present = true
			case genRandom:
				present = g.p(1, 2)
			}
		}
		if present {
			g.value(v.FieldByIndex(f.Index), fs, req)
		}
	}
}

// value sets a field; nonzero values only when the mode is genFull or the field is optional.
func (g *gen) value(v reflect.Value, s *schema, req bool) {
	nz := g.Mode == genFull || !req
	switch {
	case v.Type() == timeType:
		v.Set(reflect.ValueOf(g.time()))
	case v.Kind() == reflect.Ptr:
		e := reflect.New(v.Type().Elem())
		if e.Elem().Type() == timeType {
			e.Elem().Set(reflect.ValueOf(g.time()))
		} else {
			g.fill(e.Elem(), s)
		}
		v.Set(e)
	case v.Kind() == reflect.Slice:
		max := g.MaxList
		if max == 0 {
			max = 3
		}
		n := 1 + g.R.IntN(max)
		if g.Edge && g.budget > 0 && g.p(1, 4) { // a long list
			n = min(g.budget, []int{9, 16, 17, 33, 65, 101, 129, 257, 300}[g.R.IntN(9)])
			g.budget -= n
		}
		if !nz && !g.Lists && (!g.Valid && g.p(1, 5) || g.EmptyLists) {
			if g.p(1, 2) {
				return // nil
			}
			n = 0
		}
		out := reflect.MakeSlice(v.Type(), n, n)
		is := s.Items
		if is == nil {
			is = &schema{}
		}
		for i := 0; i < n; i++ {
			g.value(out.Index(i), is, true)
		}
		v.Set(out)
	case v.Kind() == reflect.String:
		if g.Valid {
			if req && len(s.Enum) == 0 && s.Format == "" && g.Mode != genFull && g.p(1, 12) {
				return // a required text may be empty
			}
			v.SetString(g.validStr(s))
			return
		}
		if len(s.Enum) > 0 && g.p(1, 2) {
			v.SetString(s.Enum[g.R.IntN(len(s.Enum))])
			return
		}
		if nz {
			v.SetString(g.nonEmpty(g.str))
		} else {
			v.SetString(g.str())
		}
	case v.Kind() == reflect.Bool:
		v.SetBool(nz && g.Mode == genFull || g.p(1, 2))
	case isIntKind(v.Kind()):
		bits := 64
		if v.Type().Bits() < 64 {
			bits = 32
		}
		setInt(v, g.int(bits, nz))
	case isFloatKind(v.Kind()):
		for i := 0; ; i++ {
			x := g.float()
			if g.Valid || s.Type == "integer" || g.XML {
				x = float64(g.int(32, nz))
				if !g.XML && s.Type == "number" && s.MultipleOf != 0 {
					x = float64(g.R.IntN(100000)) / 10
				}
			}
			if s.Type != "integer" && g.Valid && s.MultipleOf != 0 {
				x = float64(g.R.IntN(100000)) / 10
			}
			if x != 0 || !nz || i > 50 {
				v.SetFloat(x)
				break
			}
		}
	default:
		panic("gen: " + v.Type().String())
	}
}

func (g *gen) int(bits int, nz bool) int64 {
	if g.Zeros && !nz && g.p(1, 2) {
		return 0
	}
	for i := 0; i < 50; i++ {
		if x := g.integer(bits); x != 0 || !nz {
			return x
		}
	}
	return 7
}

func (g *gen) validStr(s *schema) string {
	if len(s.Enum) > 0 {
		return s.Enum[g.R.IntN(len(s.Enum))]
	}
	if s.Format == "date-time" {
		return g.time().Format(time.RFC3339Nano)
	}
	if s.Format == "uri" {
		return []string{"ftp://host/path", "http://example.org/a?b=c&d=%20e", "https://user:pw@h:8/x#y"}[g.R.IntN(3)]
	}
	t := g.nonEmpty(g.str)
	if s.MaxLength > 0 {
		r := []rune(t)
		if len(r) > s.MaxLength {
			t = string(r[:s.MaxLength])
		}
	}
	return t
}

// newMsg makes a random message of a struct type.
func (g *gen) newMsg(t reflect.Type, s *schema) any {
	v := reflect.New(t)
	g.budget, g.longLeft = 0, g.Long
	if g.Edge && g.p(1, 3) {
		g.budget = 300
	}
	g.fill(v.Elem(), s)
	return v.Interface()
}

func (g *gen) req(o *opDef) messages.Request {
	return g.newMsg(o.Req, schemaOf(o.Action)).(messages.Request)
}
func (g *gen) resp(o *opDef) messages.Response {
	return g.newMsg(o.Resp, schemaOf(o.Action+"Response")).(messages.Response)
}

// ---------------------------------------------------------------- comparison

// diff returns the path of the first difference between two messages ("" when
// equal): instants compare as instants, an empty list equals an absent one.
func diff(a, b any) string { return diffV(reflect.ValueOf(a), reflect.ValueOf(b), "", false) }

// diffSent compares a message with what arrived of it over OCPP-J, where
// timestamps may have lost their fraction of a second.
func diffSent(sent, arrived any) string {
	return diffV(reflect.ValueOf(sent), reflect.ValueOf(arrived), "", true)
}

func diffV(a, b reflect.Value, path string, sec bool) string {
	if a.IsValid() != b.IsValid() {
		return path + ": one side is missing"
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: type %s vs %s", path, a.Type(), b.Type())
	}
	switch {
	case a.Type() == timeType:
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if !x.Equal(y) && !(sec && x.Truncate(time.Second).Equal(y)) {
			return fmt.Sprintf("%s: %s vs %s", path, x.Format(time.RFC3339Nano), y.Format(time.RFC3339Nano))
		}
		return ""
	case a.Kind() == reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil=%v vs nil=%v", path, a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return ""
		}
		return diffV(a.Elem(), b.Elem(), path, sec)
	case a.Kind() == reflect.Struct:
		for _, f := range fieldsOf(a.Type()) {
			if d := diffV(a.FieldByIndex(f.Index), b.FieldByIndex(f.Index), path+"."+f.Name, sec); d != "" {
				return d
			}
		}
		return ""
	case a.Kind() == reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d vs %d elements", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffV(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), sec); d != "" {
				return d
			}
		}
		return ""
	}
	if !reflect.DeepEqual(a.Interface(), b.Interface()) {
		return fmt.Sprintf("%s: %.200q vs %.200q", path, fmt.Sprint(a.Interface()), fmt.Sprint(b.Interface()))
	}
	return ""
}

// diffKey drops list indexes and values from a difference, for use as an identity.
func diffKey(d string) string {
	p, _, _ := strings.Cut(d, ":")
	var out []rune
	for _, r := range p {
		if !unicode.IsDigit(r) {
			out = append(out, r)
		}
	}
	return string(out)
}

// ---------------------------------------------------------------- JSON encoding

// toJSON encodes a message by the OCPP 1.6 property names. Optional fields that
// are zero are left out.
func toJSON(v any, s *schema) map[string]any { return toJSONV(reflect.ValueOf(v).Elem(), s) }

func toJSONV(v reflect.Value, s *schema) map[string]any {
	m := map[string]any{}
	for _, f := range fieldsOf(v.Type()) {
		n := propName(f.Name)
		fv := v.FieldByIndex(f.Index)
		if !s.requires(n) && isZero(fv) {
			continue
		}
		m[n] = jsonVal(fv, s.prop(n))
	}
	return m
}

// timeText writes a time as RFC 3339, which knows no seconds in zones.
func timeText(t time.Time) string {
	if _, s := t.Zone(); s%60 != 0 {
		t = t.UTC()
	}
	return t.Format(time.RFC3339Nano)
}

func isZero(v reflect.Value) bool {
	if v.Kind() == reflect.Slice {
		return v.Len() == 0
	}
	return v.IsZero()
}

func jsonVal(v reflect.Value, s *schema) any {
	if s == nil {
		s = &schema{}
	}
	switch {
	case v.Type() == timeType:
		return timeText(v.Interface().(time.Time))
	case v.Kind() == reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return jsonVal(v.Elem(), s)
	case v.Kind() == reflect.Struct:
		return toJSONV(v, s)
	case v.Kind() == reflect.Slice:
		out := []any{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, jsonVal(v.Index(i), s.Items))
		}
		return out
	case v.Kind() == reflect.String:
		return v.String()
	case v.Kind() == reflect.Bool:
		return v.Bool()
	case isFloatKind(v.Kind()):
		return json.Number(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	default:
		return json.Number(strconv.FormatInt(getInt(v), 10))
	}
}

// wireDiff compares a payload seen on the wire with the message it should carry:
// every set field under its property with that value, nothing else: no
// placeholders (null, "", 0, []) for unset optional fields either.
func wireDiff(payload []byte, msg any, s *schema) string {
	d := json.NewDecoder(strings.NewReader(string(payload)))
	d.UseNumber()
	var got map[string]any
	if err := d.Decode(&got); err != nil {
		return ": not an object"
	}
	return wireDiffObj(got, reflect.ValueOf(msg).Elem(), s, "")
}

func wireDiffObj(got map[string]any, v reflect.Value, s *schema, path string) string {
	known := map[string]bool{}
	for _, f := range fieldsOf(v.Type()) {
		n := propName(f.Name)
		known[n] = true
		fv := v.FieldByIndex(f.Index)
		g, ok := got[n]
		if !ok {
			if !isZero(fv) {
				return path + "." + n + ": missing"
			}
			continue
		}
		if isZero(fv) && !s.requires(n) && fv.Kind() != reflect.Bool {
			return path + "." + n + ": on the wire without being set"
		}
		if d := wireDiffVal(g, fv, s.prop(n), path+"."+n, !s.requires(n)); d != "" {
			return d
		}
	}
	for k := range got {
		if !known[k] {
			return path + "." + k + ": unexpected property"
		}
	}
	return ""
}

func wireDiffVal(g any, v reflect.Value, s *schema, path string, optional bool) string {
	if s == nil {
		s = &schema{}
	}
	bad := func() string {
		return fmt.Sprintf("%s: wire %.200q, message %.200q", path, fmt.Sprint(g), fmt.Sprint(v.Interface()))
	}
	switch {
	case v.Type() == timeType:
		t, ok := g.(string)
		if !ok {
			return bad()
		}
		x, err := time.Parse(time.RFC3339Nano, t)
		if m := v.Interface().(time.Time); err != nil || !x.Equal(m) && !x.Equal(m.Truncate(time.Second)) {
			return bad()
		}
	case v.Kind() == reflect.Ptr:
		if v.IsNil() {
			if g != nil {
				return bad()
			}
			return ""
		}
		return wireDiffVal(g, v.Elem(), s, path, optional)
	case v.Kind() == reflect.Struct:
		o, ok := g.(map[string]any)
		if !ok {
			return bad()
		}
		return wireDiffObj(o, v, s, path)
	case v.Kind() == reflect.Slice:
		if g == nil && v.Len() == 0 {
			return ""
		}
		l, ok := g.([]any)
		if !ok || len(l) != v.Len() {
			return bad()
		}
		for i := range l {
			if d := wireDiffVal(l[i], v.Index(i), s.Items, fmt.Sprintf("%s[%d]", path, i), false); d != "" {
				return d
			}
		}
	case v.Kind() == reflect.String:
		if t, ok := g.(string); !ok || t != v.String() {
			return bad()
		}
	case v.Kind() == reflect.Bool:
		if t, ok := g.(bool); !ok || t != v.Bool() {
			return bad()
		}
	default:
		n, ok := g.(json.Number)
		if !ok {
			return bad()
		}
		if isFloatKind(v.Kind()) {
			if f, err := strconv.ParseFloat(n.String(), 64); err != nil || f != v.Float() {
				return bad()
			}
		} else if i, err := exactInt(n.String()); err != nil || i != getInt(v) {
			return bad()
		}
	}
	return ""
}

func show(v any) string {
	b, err := json.Marshal(jsonSafe(reflect.ValueOf(v)))
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	s := string(b)
	if len(s) > 700 {
		s = s[:700] + "…"
	}
	return s
}

func jsonSafe(v reflect.Value) any {
	if !v.IsValid() {
		return nil
	}
	switch {
	case v.Type() == timeType:
		return timeText(v.Interface().(time.Time))
	case v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return jsonSafe(v.Elem())
	case v.Kind() == reflect.Struct:
		m := map[string]any{}
		for _, f := range fieldsOf(v.Type()) {
			if fv := v.FieldByIndex(f.Index); !isZero(fv) {
				m[f.Name] = jsonSafe(fv)
			}
		}
		return m
	case v.Kind() == reflect.Slice:
		out := []any{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, jsonSafe(v.Index(i)))
		}
		return out
	}
	return v.Interface()
}

// exactInt reads a JSON number that is an integer, in any notation.
func exactInt(text string) (int64, error) {
	if i, err := strconv.ParseInt(text, 10, 64); err == nil {
		return i, nil
	}
	r, ok := new(big.Rat).SetString(text)
	if !ok || !r.IsInt() || !r.Num().IsInt64() {
		return 0, fmt.Errorf("%s is not an integer", text)
	}
	return r.Num().Int64(), nil
}

// ---- numbers of whatever Go type a message field has

func isIntKind(k reflect.Kind) bool   { return k >= reflect.Int && k <= reflect.Uint64 }
func isFloatKind(k reflect.Kind) bool { return k == reflect.Float64 || k == reflect.Float32 }

func getInt(v reflect.Value) int64 {
	if v.CanUint() {
		return int64(v.Uint())
	}
	return v.Int()
}

// setInt sets the value, or the nearest one to it that the type can hold.
func setInt(v reflect.Value, i int64) {
	if v.CanUint() {
		for i < 0 || v.OverflowUint(uint64(i)) {
			i = int64(uint64(i) >> 1)
		}
		v.SetUint(uint64(i))
		return
	}
	for v.OverflowInt(i) {
		i /= 2
	}
	v.SetInt(i)
}

// ---- numbers beyond what the Go type of today may hold

// What the fields of the messages hold, whatever their Go type. Those of this
// table hold less than 64-bit integers.
var narrow = map[string]int{
	"cpreq.MeterValues.TransactionId": 32, "cpresp.StartTransaction.TransactionId": 32, "csreq.RemoteStartTransaction.ConnectorId": 32,
	"csreq.RemoteStopTransaction.TransactionId": 32, "cpresp.BootNotification.Interval": 53, "csreq.UpdateFirmware.Retries": 53,
	"csreq.UpdateFirmware.RetryInterval": 53,
}

// widen replaces the numbers of an encoded message by any others.
func (g *gen) widen(j map[string]any, t reflect.Type, s *schema) {
	for _, f := range fieldsOf(t) {
		n := propName(f.Name)
		ft, fs := f.Type, s.prop(n)
		if fs == nil {
			fs = &schema{}
		}
		for ft.Kind() == reflect.Ptr || ft.Kind() == reflect.Slice {
			ft = ft.Elem()
		}
		switch x := j[n].(type) {
		case json.Number:
			if fs.Type == "number" {
				v := g.float()
				for v == 0 {
					v = g.float()
				}
				j[n] = json.Number(strconv.FormatFloat(v, 'g', -1, 64))
				continue
			}
			bits := narrow[t.String()+"."+f.Name]
			v := g.int(64, true)
			if bits == 32 {
				v = g.int(32, true)
			} else if bits == 53 && (v > 1<<53 || v < -1<<53) {
				v >>= 11
			}
			j[n] = json.Number(strconv.FormatInt(v, 10))
		case map[string]any:
			g.widen(x, ft, fs)
		case []any:
			for _, e := range x {
				if m, ok := e.(map[string]any); ok && fs.Items != nil {
					g.widen(m, ft, fs.Items)
				}
			}
		}
	}
}

// treeDiff compares two encoded messages.
func treeDiff(a, b any, path string) string {
	bad := func() string { return fmt.Sprintf("%s: %.200q vs %.200q", path, fmt.Sprint(a), fmt.Sprint(b)) }
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return bad()
		}
		for k := range x {
			if _, ok := y[k]; !ok {
				return path + "." + k + ": missing"
			}
			if d := treeDiff(x[k], y[k], path+"."+k); d != "" {
				return d
			}
		}
		return ""
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return bad()
		}
		for i := range x {
			if d := treeDiff(x[i], y[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case json.Number:
		y, ok := b.(json.Number)
		if !ok {
			return bad()
		}
		i, e := exactInt(x.String())
		k, f := exactInt(y.String())
		if e == nil && f == nil {
			if i != k {
				return bad()
			}
			return ""
		}
		u, e := strconv.ParseFloat(x.String(), 64)
		v, f := strconv.ParseFloat(y.String(), 64)
		if e != nil || f != nil || u != v {
			return bad()
		}
		return ""
	case string:
		y, ok := b.(string)
		if !ok {
			return bad()
		}
		if x == y {
			return ""
		}
		t, e := time.Parse(time.RFC3339Nano, x)
		u, f := time.Parse(time.RFC3339Nano, y)
		if e != nil || f != nil || !t.Equal(u) && !t.Truncate(time.Second).Equal(u) {
			return bad()
		}
		return ""
	}
	if a != b {
		return bad()
	}
	return ""
}

// clone is a deep copy of a message.
func clone[T any](m T) T {
	var out T
	overwrite(reflect.ValueOf(&out).Elem(), reflect.ValueOf(&m).Elem())
	return out
}

// overwrite makes dst equal to src, sharing nothing with it. Objects and lists
// that dst has already are changed in place where that is possible.
func overwrite(dst, src reflect.Value) {
	switch {
	case src.Kind() == reflect.Interface:
		if src.IsNil() {
			dst.SetZero()
			return
		}
		e := src.Elem()
		if !dst.IsNil() && dst.Elem().Type() == e.Type() && e.Kind() == reflect.Pointer && !e.IsNil() && !dst.Elem().IsNil() {
			overwrite(dst.Elem().Elem(), e.Elem())
			return
		}
		x := reflect.New(e.Type()).Elem()
		overwrite(x, e)
		dst.Set(x)
	case src.Kind() == reflect.Pointer:
		if src.IsNil() {
			dst.SetZero()
			return
		}
		if dst.IsNil() {
			dst.Set(reflect.New(src.Type().Elem()))
		}
		overwrite(dst.Elem(), src.Elem())
	case src.Kind() == reflect.Struct && src.Type() != timeType:
		for i := 0; i < src.NumField(); i++ {
			if dst.Field(i).CanSet() {
				overwrite(dst.Field(i), src.Field(i))
			}
		}
	case src.Kind() == reflect.Slice:
		if src.IsNil() || dst.Len() != src.Len() {
			dst.SetZero()
			if src.IsNil() {
				return
			}
			dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
		}
		for i := 0; i < src.Len(); i++ {
			overwrite(dst.Index(i), src.Index(i))
		}
	default:
		dst.Set(src)
	}
}

// timeOf is the first timestamp of a message.
func timeOf(m any) (t time.Time, ok bool) {
	v := reflect.ValueOf(m)
	if v.Kind() != reflect.Pointer || v.IsNil() {
		return
	}
	for _, f := range fieldsOf(v.Elem().Type()) {
		if x, is := v.Elem().FieldByIndex(f.Index).Interface().(time.Time); is {
			return x, true
		}
	}
	return
}
