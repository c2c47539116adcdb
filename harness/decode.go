package verifharness

// decodeCall rebuilds a message from a payload on the wire without go-ocpp's codecs.

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp/messages"
)

func decodeCall(m *ocppMsg, fromCP bool) (messages.Request, string) {
	for _, o := range ops {
		if o.Action == m.Action && o.FromCP == fromCP {
			r := o.NewReq()
			if err := fromJSON(m.Payload, r, schemaOf(o.Action)); err != "" {
				return nil, err
			}
			return r, ""
		}
	}
	return nil, "unknown action " + m.Action
}

func fromJSON(payload []byte, into any, s *schema) string {
	d := json.NewDecoder(strings.NewReader(string(payload)))
	d.UseNumber()
	var m map[string]any
	if err := d.Decode(&m); err != nil {
		return err.Error()
	}
	return fromObj(m, reflect.ValueOf(into).Elem())
}

func fromObj(m map[string]any, v reflect.Value) string {
	for _, f := range fieldsOf(v.Type()) {
		x, ok := m[propName(f.Name)]
		if !ok || x == nil {
			continue
		}
		if e := fromVal(x, v.FieldByIndex(f.Index)); e != "" {
			return f.Name + ": " + e
		}
	}
	return ""
}

func fromVal(x any, v reflect.Value) string {
	switch {
	case v.Type() == timeType:
		s, _ := x.(string)
		t, err := time.Parse(time.RFC3339Nano, s)
		if err != nil {
			return err.Error()
		}
		v.Set(reflect.ValueOf(t))
	case v.Kind() == reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		return fromVal(x, v.Elem())
	case v.Kind() == reflect.Struct:
		m, ok := x.(map[string]any)
		if !ok {
			return fmt.Sprintf("%v", x)
		}
		return fromObj(m, v)
	case v.Kind() == reflect.Slice:
		l, ok := x.([]any)
		if !ok {
			return fmt.Sprintf("%v", x)
		}
		v.Set(reflect.MakeSlice(v.Type(), len(l), len(l)))
		for i := range l {
			if e := fromVal(l[i], v.Index(i)); e != "" {
				return e
			}
		}
	case v.Kind() == reflect.String:
		s, ok := x.(string)
		if !ok {
			return fmt.Sprintf("%v", x)
		}
		v.SetString(s)
	case v.Kind() == reflect.Bool:
		b, ok := x.(bool)
		if !ok {
			return fmt.Sprintf("%v", x)
		}
		v.SetBool(b)
	case isFloatKind(v.Kind()):
		n, ok := x.(json.Number)
		if !ok {
			return fmt.Sprintf("%v", x)
		}
		f, err := n.Float64()
		if err != nil {
			return err.Error()
		}
		v.SetFloat(f)
	default:
		n, ok := x.(json.Number)
		if !ok {
			return fmt.Sprintf("%v", x)
		}
		i, err := exactInt(n.String())
		if err != nil {
			return err.Error()
		}
		setInt(v, i)
	}
	return ""
}
