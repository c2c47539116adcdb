package verifharness

// The OCPP 1.6 JSON schemas (spec/*.json, copied from the repository at the
// pinned commit so that a change to the repository cannot change the oracle)
// and a validator for the subset of JSON Schema they use.

import (
	"bytes"
	"embed"
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
)

//go:embed spec/*.json
var specFS embed.FS

type schema struct {
	Title      string             `json:"title"`
	Type       string             `json:"type"`
	Properties map[string]*schema `json:"properties"`
	Items      *schema            `json:"items"`
	Required   []string           `json:"required"`
	Additional *bool              `json:"additionalProperties"`
	Enum       []string           `json:"enum"`
	MaxLength  int                `json:"maxLength"`
	Format     string             `json:"format"`
	MultipleOf float64            `json:"multipleOf"`
}

func (s *schema) prop(n string) *schema {
	if s == nil {
		return nil
	}
	return s.Properties[n]
}

func (s *schema) requires(n string) bool {
	if s == nil {
		return false
	}
	for _, r := range s.Required {
		if r == n {
			return true
		}
	}
	return false
}

var schemaMu sync.Mutex
var schemas = map[string]*schema{}

func schemaOf(name string) *schema {
	schemaMu.Lock()
	defer schemaMu.Unlock()
	if s := schemas[name]; s != nil {
		return s
	}
	b, err := specFS.ReadFile("spec/" + name + ".json")
	if err != nil {
		panic(err)
	}
	s := &schema{}
	if err := json.Unmarshal(bytes.TrimPrefix(b, []byte("\xef\xbb\xbf")), s); err != nil {
		panic(name + ": " + err.Error())
	}
	schemas[name] = s
	return s
}

type schemaErr struct{ Path, Kind, Detail string }

var rfc3339 = regexp.MustCompile(`^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)$`)

// validate returns every violation of the schema by a payload.
func validate(payload []byte, s *schema) []schemaErr {
	d := json.NewDecoder(bytes.NewReader(payload))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return []schemaErr{{"", "json", err.Error()}}
	}
	var out []schemaErr
	validateV(v, s, "", &out)
	return out
}

func validateV(v any, s *schema, path string, out *[]schemaErr) {
	add := func(kind, f string, a ...any) { *out = append(*out, schemaErr{path, kind, fmt.Sprintf(f, a...)}) }
	if s == nil {
		return
	}
	switch s.Type {
	case "object":
		m, ok := v.(map[string]any)
		if !ok {
			kind := "type"
			if v == nil {
				kind = "null"
			}
			add(kind, "%v is not an object", v)
			return
		}
		for _, r := range s.Required {
			if _, ok := m[r]; !ok {
				*out = append(*out, schemaErr{path + "." + r, "required", "missing"})
			}
		}
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			p := s.Properties[k]
			if p == nil {
				if s.Additional != nil && !*s.Additional {
					*out = append(*out, schemaErr{path + "." + k, "additional", "not in the schema"})
				}
				continue
			}
			validateV(m[k], p, path+"."+k, out)
		}
	case "array":
		l, ok := v.([]any)
		if !ok {
			kind := "type"
			if v == nil {
				kind = "null"
			}
			add(kind, "%v is not an array", v)
			return
		}
		for _, e := range l {
			validateV(e, s.Items, path+"[]", out)
		}
	case "string":
		t, ok := v.(string)
		if !ok {
			kind := "type"
			if v == nil {
				kind = "null"
			}
			add(kind, "%v is not a string", v)
			return
		}
		if len(s.Enum) > 0 {
			found := false
			for _, e := range s.Enum {
				found = found || e == t
			}
			if !found {
				add("enum", "%q", t)
			}
		}
		if s.MaxLength > 0 && utf8.RuneCountInString(t) > s.MaxLength {
			add("maxLength", "%q", t)
		}
		if s.Format == "date-time" {
			if _, err := time.Parse(time.RFC3339Nano, t); err != nil || !rfc3339.MatchString(t) {
				add("date-time", "%q", t)
			}
		}
		if s.Format == "uri" {
			if u, err := url.Parse(t); err != nil || u.Scheme == "" {
				add("uri", "%q", t)
			}
		}
	case "integer", "number":
		n, ok := v.(json.Number)
		if !ok {
			kind := "type"
			if v == nil {
				kind = "null"
			}
			add(kind, "%v is not a number", v)
			return
		}
		f, err := n.Float64()
		if err != nil {
			add("number", "%s", n)
			return
		}
		if s.Type == "integer" && f != math.Trunc(f) {
			add("integer", "%s", n)
		}
		if s.Type == "integer" && strings.ContainsAny(n.String(), ".eE") {
			add("integer", "%s", n)
		}
		if s.MultipleOf != 0 {
			q := f / s.MultipleOf
			if math.Abs(q-math.Round(q)) > 1e-6 {
				add("multipleOf", "%s", n)
			}
		}
	case "boolean":
		if _, ok := v.(bool); !ok {
			kind := "type"
			if v == nil {
				kind = "null"
			}
			add(kind, "%v is not a boolean", v)
		}
	}
}
