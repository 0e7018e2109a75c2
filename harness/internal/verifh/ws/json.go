package main

import (
	"encoding/json"
	"errors"
	"io"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

// A model of encoding/json for the engine: structs with tags, strings, integers, booleans, slices.
// The same parser reads, natively and symbolically, what the daemon sends.

type parser struct {
	s string
	i int
}

var errSyntax = errors.New("invalid json")

func (p *parser) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\t' || p.s[p.i] == '\r') {
		p.i++
	}
}

func (p *parser) peek() byte {
	p.ws()
	if p.i == len(p.s) {
		return 0
	}
	return p.s[p.i]
}

type member struct {
	key string
	val interface{}
}

type object []member
type number string

func (o object) get(k string) interface{} {
	for _, m := range o {
		if m.key == k {
			return m.val
		}
	}
	return nil
}

func (p *parser) value() (interface{}, error) {
	switch c := p.peek(); {
	case c == '{':
		p.i++
		o := object{}
		if p.peek() == '}' {
			p.i++
			return o, nil
		}
		for {
			if p.peek() != '"' {
				return nil, errSyntax
			}
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			if p.peek() != ':' {
				return nil, errSyntax
			}
			p.i++
			v, err := p.value()
			if err != nil {
				return nil, err
			}
			o = append(o, member{k, v})
			switch p.peek() {
			case ',':
				p.i++
			case '}':
				p.i++
				return o, nil
			default:
				return nil, errSyntax
			}
		}
	case c == '[':
		p.i++
		a := []interface{}{}
		if p.peek() == ']' {
			p.i++
			return a, nil
		}
		for {
			v, err := p.value()
			if err != nil {
				return nil, err
			}
			a = append(a, v)
			switch p.peek() {
			case ',':
				p.i++
			case ']':
				p.i++
				return a, nil
			default:
				return nil, errSyntax
			}
		}
	case c == '"':
		return p.str()
	case c == '-' || c >= '0' && c <= '9':
		j := p.i
		p.i++
		for p.i < len(p.s) && (p.s[p.i] >= '0' && p.s[p.i] <= '9' || p.s[p.i] == '.' || p.s[p.i] == 'e') {
			p.i++
		}
		return number(p.s[j:p.i]), nil
	}
	for _, w := range []string{"true", "false", "null"} {
		if strings.HasPrefix(p.s[p.i:], w) {
			p.i += len(w)
			if w == "null" {
				return nil, nil
			}
			return w == "true", nil
		}
	}
	return nil, errSyntax
}

func (p *parser) str() (string, error) {
	p.i++
	b := []byte{}
	for p.i < len(p.s) {
		c := p.s[p.i]
		p.i++
		switch {
		case c == '"':
			return string(b), nil
		case c < ' ':
			return "", errSyntax
		case c == '\\':
			if p.i == len(p.s) {
				return "", errSyntax
			}
			e := p.s[p.i]
			p.i++
			switch e {
			case 'n':
				e = '\n'
			case 't':
				e = '\t'
			case 'r':
				e = '\r'
			case 'u':
				if p.i+4 > len(p.s) {
					return "", errSyntax
				}
				n, err := strconv.ParseUint(p.s[p.i:p.i+4], 16, 32)
				if err != nil {
					return "", errSyntax
				}
				p.i += 4
				b = utf8.AppendRune(b, rune(n))
				continue
			case '"', '\\', '/':
			default:
				return "", errSyntax
			}
			b = append(b, e)
		default:
			b = append(b, c)
		}
	}
	return "", errSyntax
}

// parse reads one json text and what may follow it.
func parse(s string) (v interface{}, rest string, err error) {
	p := &parser{s: s}
	if v, err = p.value(); err != nil {
		return nil, "", err
	}
	return v, p.s[p.i:], nil
}

func quote(s string) string {
	b := []byte{'"'}
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			b = append(b, '\\', c)
		case c == '\n':
			b = append(b, '\\', 'n')
		case c < ' ' || c == '<' || c == '>' || c == '&':
			b = append(b, '\\', 'u', '0', '0', "0123456789abcdef"[c>>4], "0123456789abcdef"[c&15])
		default:
			b = append(b, c)
		}
	}
	return string(append(b, '"'))
}

func fieldName(f reflect.StructField) (string, bool, bool) {
	tag := f.Tag.Get("json")
	if tag == "-" || f.PkgPath != "" {
		return "", false, false
	}
	name, opts, _ := strings.Cut(tag, ",")
	if name == "" {
		name = f.Name
	}
	return name, strings.Contains(opts, "omitempty"), true
}

func zero(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.String, reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return v.Int() == 0
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return v.Uint() == 0
	case reflect.Bool:
		return !v.Bool()
	case reflect.Ptr, reflect.Interface:
		return v.IsNil()
	}
	return false
}

func text(v reflect.Value) (string, error) {
	switch v.Kind() {
	case reflect.String:
		return quote(v.String()), nil
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return strconv.FormatInt(v.Int(), 10), nil
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return strconv.FormatUint(v.Uint(), 10), nil
	case reflect.Bool:
		return strconv.FormatBool(v.Bool()), nil
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "null", nil
		}
		return text(v.Elem())
	case reflect.Slice:
		s := "["
		for i := 0; i < v.Len(); i++ {
			e, err := text(v.Index(i))
			if err != nil {
				return "", err
			}
			if i > 0 {
				s += ","
			}
			s += e
		}
		return s + "]", nil
	case reflect.Struct:
		s := "{"
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			name, omit, ok := fieldName(t.Field(i))
			if !ok || omit && zero(v.Field(i)) {
				continue
			}
			e, err := text(v.Field(i))
			if err != nil {
				return "", err
			}
			if len(s) > 1 {
				s += ","
			}
			s += quote(name) + ":" + e
		}
		return s + "}", nil
	}
	return "", errors.New("unsupported type " + v.Type().String())
}

func mapText(m map[string]string) string {
	keys := []string{}
	for k := range m {
		i := len(keys)
		keys = append(keys, k)
		for ; i > 0 && keys[i] < keys[i-1]; i-- {
			keys[i], keys[i-1] = keys[i-1], keys[i]
		}
	}
	s := "{"
	for i, k := range keys {
		if i > 0 {
			s += ","
		}
		s += quote(k) + ":" + quote(m[k])
	}
	return s + "}"
}

func assign(dst reflect.Value, v interface{}) error {
	if v == nil {
		return nil
	}
	switch dst.Kind() {
	case reflect.Ptr:
		if dst.IsNil() {
			dst.Set(reflect.New(dst.Type().Elem()))
		}
		return assign(dst.Elem(), v)
	case reflect.String:
		if s, ok := v.(string); ok {
			dst.SetString(s)
			return nil
		}
	case reflect.Bool:
		if b, ok := v.(bool); ok {
			dst.SetBool(b)
			return nil
		}
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		if n, ok := v.(number); ok {
			x, err := strconv.ParseInt(string(n), 10, int(dst.Type().Size())*8)
			if err == nil {
				dst.SetInt(x)
			}
			return err
		}
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		if n, ok := v.(number); ok {
			x, err := strconv.ParseUint(string(n), 10, int(dst.Type().Size())*8)
			if err == nil {
				dst.SetUint(x)
			}
			return err
		}
	case reflect.Slice:
		if a, ok := v.([]interface{}); ok {
			s := reflect.MakeSlice(dst.Type(), len(a), len(a))
			for i, x := range a {
				if err := assign(s.Index(i), x); err != nil {
					return err
				}
			}
			dst.Set(s)
			return nil
		}
	case reflect.Struct:
		if o, ok := v.(object); ok {
			t := dst.Type()
			for _, m := range o {
				for i := 0; i < t.NumField(); i++ {
					name, _, ok := fieldName(t.Field(i))
					if !ok || !strings.EqualFold(name, m.key) {
						continue
					}
					if err := assign(dst.Field(i), m.val); err != nil {
						return err
					}
				}
			}
			return nil
		}
	}
	return errors.New("json: cannot unmarshal into " + dst.Type().String())
}

//verif:replace encoding/json.Marshal
func marshalModel(v interface{}) ([]byte, error) {
	if m, ok := v.(map[string]string); ok {
		return []byte(mapText(m)), nil
	}
	s, err := text(reflect.ValueOf(v))
	return []byte(s), err
}

//verif:replace encoding/json.Unmarshal
func unmarshalModel(data []byte, v interface{}) error {
	x, rest, err := parse(string(data))
	if err != nil {
		return err
	}
	if strings.TrimSpace(rest) != "" {
		return errSyntax
	}
	if m, ok := v.(*map[string]string); ok {
		o, ok := x.(object)
		if !ok {
			return errors.New("json: cannot unmarshal into a map")
		}
		if *m == nil {
			*m = map[string]string{}
		}
		for _, e := range o {
			t, ok := e.val.(string)
			if !ok {
				return errors.New("json: cannot unmarshal into a string")
			}
			(*m)[e.key] = t
		}
		return nil
	}
	return assign(reflect.ValueOf(v).Elem(), x)
}

var mapsMu sync.Mutex
var decoders = map[*json.Decoder]io.Reader{}
var encoders = map[*json.Encoder]io.Writer{}

//verif:replace encoding/json.NewDecoder
func newDecoderModel(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	mapsMu.Lock()
	decoders[d] = r
	mapsMu.Unlock()
	return d
}

//verif:replace (*encoding/json.Decoder).Decode
func decodeModel(d *json.Decoder, v interface{}) error {
	var r io.Reader
	mapsMu.Lock()
	r = decoders[d]
	mapsMu.Unlock()
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	if len(strings.TrimSpace(string(b))) == 0 {
		return io.EOF
	}
	x, _, err := parse(string(b))
	if err != nil {
		return err
	}
	return assign(reflect.ValueOf(v).Elem(), x)
}

//verif:replace encoding/json.NewEncoder
func newEncoderModel(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	mapsMu.Lock()
	encoders[e] = w
	mapsMu.Unlock()
	return e
}

//verif:replace (*encoding/json.Encoder).Encode
func encodeModel(e *json.Encoder, v interface{}) error {
	var w io.Writer
	mapsMu.Lock()
	w = encoders[e]
	mapsMu.Unlock()
	b, err := marshalModel(v)
	if err != nil {
		return err
	}
	_, err = w.Write(append(b, '\n'))
	return err
}
