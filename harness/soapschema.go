package verifharness

// The OCPP 1.5 WSDLs (spec/*.wsdl, copied at the pinned commit), a namespace
// aware document tree, a validator of message elements against the WSDL, and an
// XML encoder of messages that does not use go-ocpp's struct tags.

import (
	"embed"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
)

//go:embed spec/*.wsdl
var wsdlFS embed.FS

const (
	nsCS   = "urn://Ocpp/Cs/2012/06/"
	nsCP   = "urn://Ocpp/Cp/2012/06/"
	nsSOAP = "http://www.w3.org/2003/05/soap-envelope"
	nsWSA  = "http://www.w3.org/2005/08/addressing"
	nsXSD  = "http://www.w3.org/2001/XMLSchema"
	nsXML  = "http://www.w3.org/XML/1998/namespace"
)

// ---- documents

type xattr struct{ NS, Name, Val string }

type xnode struct {
	NS, Name string
	Attrs    []xattr
	Kids     []*xnode
	Text     string
}

func (n *xnode) attr(name string) string {
	for _, a := range n.Attrs {
		if a.NS == "" && a.Name == name {
			return a.Val
		}
	}
	return ""
}

func (n *xnode) kids(ns, name string) (out []*xnode) {
	for _, k := range n.Kids {
		if k.NS == ns && k.Name == name {
			out = append(out, k)
		}
	}
	return
}

func (n *xnode) kid(ns, name string) *xnode {
	if k := n.kids(ns, name); len(k) == 1 {
		return k[0]
	}
	return nil
}

func (n *xnode) path(ns string, names ...string) *xnode {
	for _, s := range names {
		if n == nil {
			return nil
		}
		n = n.kid(ns, s)
	}
	return n
}

// parseXML builds the tree of a document; it refuses what is not well formed,
// uses undeclared prefixes or repeats an attribute.
func parseXML(b []byte) (*xnode, error) {
	d := xml.NewDecoder(strings.NewReader(string(b)))
	var root *xnode
	var stack []*xnode
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch t := t.(type) {
		case xml.StartElement:
			n := &xnode{NS: t.Name.Space, Name: t.Name.Local}
			bad := func(ns string) bool { return ns != "" && !strings.Contains(ns, ":") }
			if bad(n.NS) {
				return nil, fmt.Errorf("undeclared prefix %s", n.NS)
			}
			seen := map[xml.Name]bool{}
			for _, a := range t.Attr {
				if seen[a.Name] {
					return nil, fmt.Errorf("attribute %s twice", a.Name.Local)
				}
				seen[a.Name] = true
				if a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
					continue
				}
				if bad(a.Name.Space) {
					return nil, fmt.Errorf("undeclared prefix %s", a.Name.Space)
				}
				n.Attrs = append(n.Attrs, xattr{a.Name.Space, a.Name.Local, a.Value})
			}
			if len(stack) == 0 {
				if root != nil {
					return nil, errors.New("two document elements")
				}
				root = n
			} else {
				p := stack[len(stack)-1]
				p.Kids = append(p.Kids, n)
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) == 0 {
				if strings.TrimSpace(string(t)) != "" {
					return nil, errors.New("text outside the document element")
				}
				continue
			}
			stack[len(stack)-1].Text += string(t)
		}
	}
	if root == nil {
		return nil, errors.New("no document element")
	}
	return root, nil
}

// ---- schema

type xsdElem struct {
	Name     string
	Type     *xsdType
	Min, Max int // Max -1: unbounded
}

type xsdType struct {
	Simple string // int, dateTime, boolean, string, anyURI; "" for elements
	Attrs  map[string]bool
	Seq    []*xsdElem
}

func (t *xsdType) elem(name string) *xsdElem {
	if t == nil {
		return nil
	}
	for _, e := range t.Seq {
		if e.Name == name {
			return e
		}
	}
	return nil
}

var wsdlOnce sync.Once
var wsdlElems = map[string]map[string]*xsdType{} // namespace, global element

// The published charge point WSDL misspells one type name (RemoteSta1rtStopStatus);
// the copy in spec has it corrected.
func loadWSDL(file string) {
	b, err := wsdlFS.ReadFile("spec/" + file)
	if err != nil {
		panic(err)
	}
	root, err := parseXML(b)
	if err != nil {
		panic(err)
	}
	var sch *xnode
	var find func(n *xnode)
	find = func(n *xnode) {
		if n.NS == nsXSD && n.Name == "schema" {
			sch = n
		}
		for _, k := range n.Kids {
			find(k)
		}
	}
	find(root)
	named := map[string]*xnode{}
	for _, k := range sch.Kids {
		if k.Name == "complexType" || k.Name == "simpleType" {
			named[k.attr("name")] = k
		}
	}
	cache := map[string]*xsdType{}
	var typeOf func(n *xnode) *xsdType
	ref := func(q string) *xsdType {
		p, l, _ := strings.Cut(q, ":")
		if p != "tns" {
			return &xsdType{Simple: l}
		}
		if t := cache[l]; t != nil {
			return t
		}
		if named[l] == nil {
			panic("wsdl: no type " + q)
		}
		t := typeOf(named[l])
		cache[l] = t
		return t
	}
	typeOf = func(n *xnode) *xsdType {
		t := &xsdType{Attrs: map[string]bool{}}
		if n.Name == "simpleType" {
			_, l, _ := strings.Cut(n.kid(nsXSD, "restriction").attr("base"), ":")
			t.Simple = l
			return t
		}
		if sc := n.kid(nsXSD, "simpleContent"); sc != nil {
			ext := sc.kid(nsXSD, "extension")
			_, t.Simple, _ = strings.Cut(ext.attr("base"), ":")
			for _, a := range ext.kids(nsXSD, "attribute") {
				t.Attrs[a.attr("name")] = true
			}
			return t
		}
		if seq := n.kid(nsXSD, "sequence"); seq != nil {
			for _, k := range seq.kids(nsXSD, "element") {
				e := &xsdElem{Name: k.attr("name"), Min: 1, Max: 1}
				if v := k.attr("minOccurs"); v != "" {
					e.Min, _ = strconv.Atoi(v)
				}
				switch v := k.attr("maxOccurs"); v {
				case "":
				case "unbounded":
					e.Max = -1
				default:
					e.Max, _ = strconv.Atoi(v)
				}
				if in := k.kid(nsXSD, "complexType"); in != nil {
					e.Type = typeOf(in)
				} else {
					e.Type = ref(k.attr("type"))
				}
				t.Seq = append(t.Seq, e)
			}
		}
		return t
	}
	m := map[string]*xsdType{}
	for _, k := range sch.Kids {
		if k.Name == "element" {
			m[k.attr("name")] = ref(k.attr("type"))
		}
	}
	wsdlElems[sch.attr("targetNamespace")] = m
}

func wsdl(ns, elem string) *xsdType {
	wsdlOnce.Do(func() {
		loadWSDL("ocpp_centralsystemservice_1.5_final.wsdl")
		loadWSDL("ocpp_chargepointservice_1.5_final.wsdl")
	})
	return wsdlElems[ns][elem]
}

var (
	xsInt      = regexp.MustCompile(`^[+-]?[0-9]+$`)
	xsDateTime = regexp.MustCompile(`^-?[0-9]{4,}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}(\.[0-9]+)?(Z|[+-][0-9]{2}:[0-9]{2})?$`)
	xsBoolean  = regexp.MustCompile(`^(true|false|0|1)$`)
)

// checkType validates an element's content ("" when valid).
func (t *xsdType) check(n *xnode, path string) string {
	for _, a := range n.Attrs {
		if a.NS == "" && !t.Attrs[a.Name] {
			return fmt.Sprintf("%s: attribute %s is not allowed", path, a.Name)
		}
	}
	if t.Simple != "" {
		if len(n.Kids) > 0 {
			return path + ": has child elements"
		}
		v := n.Text
		ok := true
		switch t.Simple {
		case "int":
			ok = xsInt.MatchString(v)
		case "dateTime":
			ok = xsDateTime.MatchString(v)
		case "boolean":
			ok = xsBoolean.MatchString(v)
		case "string", "anyURI":
		default:
			return path + ": harness: unknown type " + t.Simple
		}
		if !ok {
			return fmt.Sprintf("%s: %q is not a valid %s", path, v, t.Simple)
		}
		return ""
	}
	if strings.TrimSpace(n.Text) != "" {
		return fmt.Sprintf("%s: text %q between elements", path, n.Text)
	}
	i := 0
	for _, e := range t.Seq {
		k := 0
		for i < len(n.Kids) && n.Kids[i].Name == e.Name && n.Kids[i].NS == n.NS && (e.Max < 0 || k < e.Max) {
			if p := e.Type.check(n.Kids[i], path+"."+e.Name); p != "" {
				return p
			}
			i++
			k++
		}
		if k < e.Min {
			at := ""
			if i < len(n.Kids) {
				at = fmt.Sprintf(" (found {%s}%s there)", n.Kids[i].NS, n.Kids[i].Name)
			}
			return fmt.Sprintf("%s.%s: required element is missing or misplaced%s", path, e.Name, at)
		}
	}
	if i < len(n.Kids) {
		return fmt.Sprintf("%s.%s: element in namespace %q is not allowed here", path, n.Kids[i].Name, n.Kids[i].NS)
	}
	return ""
}

// ---- messages

// has15 says whether a field exists in OCPP 1.5.
func has15(t reflect.Type, f string) bool {
	switch {
	case t == reflect.TypeOf(cpreq.SampledValue{}) && f == "Phase",
		t == reflect.TypeOf(cpreq.StopTransaction{}) && f == "Reason",
		t == reflect.TypeOf(csreq.RemoteStartTransaction{}) && f == "ChargingProfile":
		return false
	}
	return true
}

// strip15 clears the fields that OCPP 1.5 does not have.
func strip15(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			strip15(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			strip15(v.Index(i))
		}
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for _, f := range fieldsOf(v.Type()) {
			fv := v.FieldByIndex(f.Index)
			if !has15(v.Type(), f.Name) {
				fv.SetZero()
			} else {
				strip15(fv)
			}
		}
	}
}

// elemName is the OCPP 1.5 element (or attribute) of a field; "" is the text.
func elemName(t reflect.Type, f string) string {
	switch t {
	case reflect.TypeOf(cpreq.MeterValues{}):
		if f == "MeterValue" {
			return "values"
		}
	case reflect.TypeOf(cpreq.MeterValueItems{}), reflect.TypeOf(cpreq.TransactionDataItems{}):
		if f == "SampledValues" {
			return "value"
		}
	case reflect.TypeOf(cpreq.SampledValue{}):
		if f == "Value" {
			return ""
		}
	case reflect.TypeOf(cpresp.BootNotification{}):
		if f == "Interval" {
			return "heartbeatInterval"
		}
	case reflect.TypeOf(csreq.SendLocalList{}):
		if f == "LocalAuthorizationList" {
			return "localAuthorisationList"
		}
	}
	return strings.ToLower(f[:1]) + f[1:]
}

// bodyName is the element of a message: its namespace, name and type.
func (o *opDef) bodyName(resp bool) (ns, name string, t *xsdType) {
	ns = nsCP
	if o.FromCP {
		ns = nsCS
	}
	name = strings.ToLower(o.Action[:1]) + o.Action[1:] + "Request"
	if resp {
		name = strings.TrimSuffix(name, "Request") + "Response"
	}
	t = wsdl(ns, name)
	if t == nil {
		panic("wsdl: no element " + ns + name)
	}
	return
}

// xmlTree is the element that a message should be on the wire.
func (o *opDef) xmlTree(msg any, resp bool) *xnode {
	ns, name, t := o.bodyName(resp)
	n := &xnode{NS: ns, Name: name}
	xmlStruct(n, reflect.ValueOf(msg).Elem(), t)
	return n
}

func xmlText(v reflect.Value) string {
	switch {
	case v.Type() == timeType:
		return timeText(v.Interface().(time.Time))
	case v.Kind() == reflect.String:
		return v.String()
	case v.Kind() == reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case isFloatKind(v.Kind()):
		return strconv.FormatFloat(v.Float(), 'f', -1, 64)
	}
	return strconv.FormatInt(getInt(v), 10)
}

func xmlStruct(n *xnode, v reflect.Value, t *xsdType) {
	type named struct {
		e  *xsdElem
		fv reflect.Value
	}
	byName := map[string]reflect.Value{}
	for _, f := range fieldsOf(v.Type()) {
		if !has15(v.Type(), f.Name) {
			continue
		}
		byName[elemName(v.Type(), f.Name)] = v.FieldByIndex(f.Index)
	}
	if t.Simple != "" { // simple content with attributes
		for a := range t.Attrs {
			if fv, ok := byName[a]; ok && !isZero(fv) {
				n.Attrs = append(n.Attrs, xattr{"", a, xmlText(fv)})
			}
		}
		n.Text = xmlText(byName[""])
		return
	}
	for _, e := range t.Seq {
		fv, ok := byName[e.Name]
		if !ok || e.Min == 0 && isZero(fv) {
			continue
		}
		if v.Type() == reflect.TypeOf(cpreq.StopTransaction{}) && e.Name == "transactionData" {
			k := &xnode{NS: n.NS, Name: e.Name}
			for i := 0; i < fv.Len(); i++ {
				x := &xnode{NS: n.NS, Name: "values"}
				xmlStruct(x, fv.Index(i).Elem(), e.Type.elem("values").Type)
				k.Kids = append(k.Kids, x)
			}
			n.Kids = append(n.Kids, k)
			continue
		}
		xmlField(n, fv, e)
	}
}

func xmlField(n *xnode, fv reflect.Value, e *xsdElem) {
	if fv.Kind() == reflect.Slice {
		for i := 0; i < fv.Len(); i++ {
			xmlField(n, fv.Index(i), e)
		}
		return
	}
	if fv.Kind() == reflect.Ptr {
		if fv.IsNil() {
			return
		}
		fv = fv.Elem()
	}
	k := &xnode{NS: n.NS, Name: e.Name}
	if fv.Kind() == reflect.Struct && fv.Type() != timeType {
		xmlStruct(k, fv, e.Type)
	} else {
		k.Text = xmlText(fv)
	}
	n.Kids = append(n.Kids, k)
}

// sameTree compares a received element with the expected one: attributes in any
// order, times as instants, numbers as numbers.
func sameTree(got, want *xnode, t *xsdType, path string) string {
	if got.NS != want.NS || got.Name != want.Name {
		return fmt.Sprintf("%s: element {%s}%s instead of {%s}%s", path, got.NS, got.Name, want.NS, want.Name)
	}
	attrs := func(n *xnode) map[string]string {
		m := map[string]string{}
		for _, a := range n.Attrs {
			if a.NS == "" {
				m[a.Name] = a.Val
			}
		}
		return m
	}
	ga, wa := attrs(got), attrs(want)
	for k, v := range wa {
		if ga[k] != v {
			return fmt.Sprintf("%s.@%s: %.200q instead of %.200q", path, k, ga[k], v)
		}
	}
	for k, v := range ga {
		if _, ok := wa[k]; !ok { // they are all enumerated: "" is no value
			return fmt.Sprintf("%s.@%s: unexpected %.200q", path, k, v)
		}
	}
	if t.Simple != "" {
		ok := got.Text == want.Text
		switch t.Simple {
		case "dateTime":
			x, e1 := time.Parse(time.RFC3339Nano, strings.TrimSpace(got.Text))
			y, e2 := time.Parse(time.RFC3339Nano, want.Text)
			ok = e1 == nil && e2 == nil && x.Equal(y)
		case "int":
			x, e1 := strconv.ParseFloat(strings.TrimSpace(got.Text), 64)
			y, e2 := strconv.ParseFloat(want.Text, 64)
			ok = e1 == nil && e2 == nil && x == y
		}
		if !ok {
			return fmt.Sprintf("%s: %.200q instead of %.200q", path, got.Text, want.Text)
		}
		return ""
	}
	// optional elements that would hold nothing may be left out or sent
	solid := func(n *xnode) []*xnode {
		var out []*xnode
		for _, k := range n.Kids {
			if e := t.elem(k.Name); e == nil || e.Min > 0 || e.Type.Simple != "" || len(k.Kids) > 0 {
				out = append(out, k)
			}
		}
		return out
	}
	gk := solid(got)
	j := 0
	for _, k := range solid(want) {
		if j >= len(gk) {
			return fmt.Sprintf("%s.%s: missing", path, k.Name)
		}
		e := t.elem(k.Name)
		if d := sameTree(gk[j], k, e.Type, path+"."+k.Name); d != "" {
			return d
		}
		j++
	}
	if j < len(gk) {
		return fmt.Sprintf("%s.%s: unexpected element", path, gk[j].Name)
	}
	return ""
}

// ---- writing XML in any style

type xmlStyle struct {
	r        *rand.Rand
	prefix   map[string]string // namespace -> prefix ("" default namespace)
	pretty   bool
	comments bool
	cdata    bool
	charrefs bool
	attrs    bool
	inner    bool // declare namespaces where they are used, not at the root
	selfend  bool
}

var soapPrefixes = []string{"S", "soap", "SOAP-ENV", "env", "a", "ns0", "x.y-z", "_", "soapenv", "é"}

func randStyle(r *rand.Rand) *xmlStyle {
	b := func() bool { return r.IntN(2) == 0 }
	s := &xmlStyle{r: r, prefix: map[string]string{}, pretty: b(), comments: b(), cdata: b(), charrefs: b(), attrs: b(), inner: b(), selfend: b()}
	perm := r.Perm(len(soapPrefixes))
	for i, ns := range []string{nsSOAP, nsWSA, nsCS, nsCP} {
		s.prefix[ns] = soapPrefixes[perm[i]]
	}
	if b() {
		s.prefix[[]string{nsSOAP, nsWSA, nsCS, nsCP}[r.IntN(4)]] = ""
		s.inner = true
	}
	return s
}

func (s *xmlStyle) String() string {
	f := func(b bool, c string) string {
		if b {
			return c
		}
		return "-"
	}
	d := "-"
	for ns, p := range s.prefix {
		if p == "" {
			d = ns[len(ns)-4:]
		}
	}
	return f(s.pretty, "p") + f(s.comments, "c") + f(s.cdata, "d") + f(s.charrefs, "r") + f(s.attrs, "a") + f(s.inner, "i") + f(s.selfend, "s") + d
}

func (s *xmlStyle) text(t string, attr bool) string {
	var b strings.Builder
	if s.cdata && !attr && s.r.IntN(2) == 0 && !strings.ContainsAny(t, "\r") {
		return "<![CDATA[" + strings.ReplaceAll(t, "]]>", "]]]]><![CDATA[>") + "]]>"
	}
	for _, c := range t {
		switch {
		case c == '<':
			b.WriteString("&lt;")
		case c == '>':
			b.WriteString("&gt;")
		case c == '&':
			b.WriteString([]string{"&amp;", "&#38;", "&#x26;"}[s.r.IntN(3)])
		case c == '"':
			b.WriteString("&quot;")
		case c == '\'':
			b.WriteString("&apos;")
		case c == '\r' || attr && (c == '\n' || c == '\t'):
			fmt.Fprintf(&b, "&#%d;", c)
		case s.charrefs && s.r.IntN(4) == 0:
			fmt.Fprintf(&b, []string{"&#%d;", "&#x%x;", "&#x%X;"}[s.r.IntN(3)], c)
		default:
			b.WriteRune(c)
		}
		if s.comments && !attr && s.r.IntN(12) == 0 {
			b.WriteString("<!-- c -->")
		}
	}
	return b.String()
}

func (s *xmlStyle) space(depth int) string {
	t := ""
	if s.pretty {
		t = "\n" + strings.Repeat([]string{"  ", "\t"}[s.r.IntN(2)], depth)
	}
	if s.comments && s.r.IntN(3) == 0 {
		t += "<!-- <x>&y; -->"
	}
	return t
}

func (s *xmlStyle) write(b *strings.Builder, n *xnode, depth int, scope map[string]string, opaque bool) {
	q := n.Name
	decl := ""
	in := map[string]string{}
	for k, v := range scope {
		in[k] = v
	}
	declare := func(ns string) {
		p, ok := s.prefix[ns]
		if !ok {
			p = "q" + strconv.Itoa(len(in))
		}
		if cur, ok := in[p]; !ok || cur != ns {
			in[p] = ns
			name := "xmlns:" + p
			if p == "" {
				name = "xmlns"
			}
			decl += " " + name + `="` + ns + `"`
		}
		if p != "" {
			q = p + ":" + n.Name
		}
	}
	if depth == 0 && !s.inner {
		for _, ns := range []string{nsSOAP, nsWSA, nsCS, nsCP} {
			declare(ns)
		}
	}
	if n.NS != "" {
		declare(n.NS)
	} else if in[""] != "" {
		in[""] = ""
		decl += ` xmlns=""`
	}
	b.WriteString("<" + q + decl)
	for _, a := range n.Attrs {
		name := a.Name
		if a.NS == nsXML {
			name = "xml:" + a.Name
		} else if a.NS != "" {
			name = "w:" + a.Name
			b.WriteString(` xmlns:w="` + a.NS + `"`)
		}
		b.WriteString(" " + name + `="` + s.text(a.Val, true) + `"`)
	}
	if s.attrs && !opaque && s.r.IntN(3) == 0 {
		b.WriteString(` xmlns:u="http://docs.oasis-open.org/wss/2004/01/oasis-200401-wss-wssecurity-utility-1.0.xsd" u:Id='id-` + strconv.Itoa(s.r.IntN(1e6)) + `'`)
	}
	if len(n.Kids) == 0 && n.Text == "" && s.selfend {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	if len(n.Kids) == 0 {
		b.WriteString(s.text(n.Text, false))
	} else {
		for _, k := range n.Kids {
			b.WriteString(s.space(depth + 1))
			s.write(b, k, depth+1, in, opaque)
		}
		b.WriteString(s.space(depth))
	}
	b.WriteString("</" + q + ">")
}

func (s *xmlStyle) doc(n *xnode) string {
	var b strings.Builder
	switch s.r.IntN(4) {
	case 0:
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>`)
	case 1:
		b.WriteString("<?xml version='1.0' encoding='utf-8' standalone='yes'?>\n")
	case 2:
		b.WriteString("<?xml version=\"1.0\"?>\r\n")
	}
	if s.comments {
		b.WriteString("<!-- before -->")
	}
	s.write(&b, n, 0, map[string]string{}, false)
	if s.pretty {
		b.WriteString("\n")
	}
	return b.String()
}

// envelope wraps a body (nil: empty) in an envelope as another implementation would.
func (s *xmlStyle) envelope(body *xnode, action, id, ns string) *xnode {
	hdr := &xnode{NS: nsSOAP, Name: "Header"}
	add := func(ns, name, text string) *xnode {
		k := &xnode{NS: ns, Name: name, Text: text}
		hdr.Kids = append(hdr.Kids, k)
		return k
	}
	add(nsWSA, "Action", action)
	add(nsWSA, "MessageID", "uuid:"+strconv.FormatUint(s.r.Uint64(), 16))
	if id != "" {
		k := add(ns, "chargeBoxIdentity", id)
		if s.attrs {
			k.Attrs = append(k.Attrs, xattr{nsSOAP, "mustUnderstand", "true"})
		}
	}
	add(nsWSA, "To", "http://example.org/cs")
	f := add(nsWSA, "From", "")
	f.Kids = []*xnode{{NS: nsWSA, Name: "Address", Text: "http://example.org/from"}}
	if s.r.IntN(2) == 0 {
		f := add(nsWSA, "ReplyTo", "")
		f.Kids = []*xnode{{NS: nsWSA, Name: "Address", Text: "http://www.w3.org/2005/08/addressing/anonymous"}}
	}
	if s.r.IntN(3) == 0 {
		add(nsWSA, "RelatesTo", "uuid:other")
	}
	s.r.Shuffle(len(hdr.Kids), func(i, j int) { hdr.Kids[i], hdr.Kids[j] = hdr.Kids[j], hdr.Kids[i] })
	b := &xnode{NS: nsSOAP, Name: "Body"}
	if body != nil {
		b.Kids = []*xnode{body}
	}
	return &xnode{NS: nsSOAP, Name: "Envelope", Kids: []*xnode{hdr, b}}
}

func newFaultNode(text string, detail bool) *xnode {
	k := func(name, text string, kids ...*xnode) *xnode {
		return &xnode{NS: nsSOAP, Name: name, Text: text, Kids: kids}
	}
	t := k("Text", text)
	t.Attrs = []xattr{{nsXML, "lang", "en"}}
	f := k("Fault", "", k("Code", "", k("Value", "S:Receiver")), k("Reason", "", t))
	if detail {
		f.Kids = append(f.Kids, k("Detail", "", &xnode{NS: "urn:x", Name: "why", Text: "because"}))
	}
	return f
}
