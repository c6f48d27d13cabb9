package stub

import (
	"errors"
	"strconv"

	"github.com/charlesetsmith/saratoga/zzverif/sym"
)

// encoding/json.Unmarshal into a map[string]interface{} or interface{}.
func json_Unmarshal(data []byte, v any) error {
	p := &jsonParser{b: data}
	p.ws()
	x, err := p.value(0)
	if err != nil {
		return err
	}
	p.ws()
	if p.i != len(p.b) {
		return errJSON
	}
	switch t := v.(type) {
	case *map[string]interface{}:
		if x == nil {
			*t = nil
			return nil
		}
		m, ok := x.(map[string]interface{})
		if !ok {
			return errors.New("json: cannot unmarshal into Go value of type map[string]interface {}")
		}
		*t = m
	case *interface{}:
		*t = x
	default:
		panic("verif: json target not modelled")
	}
	return nil
}

func json_Valid(data []byte) bool {
	p := &jsonParser{b: data}
	p.ws()
	if _, err := p.value(0); err != nil {
		return false
	}
	p.ws()
	return p.i == len(p.b)
}

var errJSON = errors.New("invalid character in JSON")

type jsonParser struct {
	b []byte
	i int
}

func (p *jsonParser) ws() {
	for p.i < len(p.b) {
		c := p.b[p.i]
		if c != ' ' && c != '\n' && c != '\t' && c != '\r' {
			return
		}
		p.i++
	}
}

func (p *jsonParser) lit(s string, v interface{}) (interface{}, error) {
	if p.i+len(s) <= len(p.b) && string(p.b[p.i:p.i+len(s)]) == s {
		p.i += len(s)
		return v, nil
	}
	return nil, errJSON
}

func (p *jsonParser) value(depth int) (interface{}, error) {
	if p.i >= len(p.b) {
		return nil, errors.New("unexpected end of JSON input")
	}
	switch c := p.b[p.i]; {
	case c == '{':
		m := map[string]interface{}{}
		p.i++
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == '}' {
			p.i++
			return m, nil
		}
		for {
			p.ws()
			if p.i >= len(p.b) || p.b[p.i] != '"' {
				return nil, errJSON
			}
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			p.ws()
			if p.i >= len(p.b) || p.b[p.i] != ':' {
				return nil, errJSON
			}
			p.i++
			p.ws()
			v, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			m[k] = v
			p.ws()
			if p.i >= len(p.b) {
				return nil, errJSON
			}
			if p.b[p.i] == ',' {
				p.i++
				continue
			}
			if p.b[p.i] == '}' {
				p.i++
				return m, nil
			}
			return nil, errJSON
		}
	case c == '[':
		a := []interface{}{}
		p.i++
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == ']' {
			p.i++
			return a, nil
		}
		for {
			p.ws()
			v, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			a = append(a, v)
			p.ws()
			if p.i >= len(p.b) {
				return nil, errJSON
			}
			if p.b[p.i] == ',' {
				p.i++
				continue
			}
			if p.b[p.i] == ']' {
				p.i++
				return a, nil
			}
			return nil, errJSON
		}
	case c == '"':
		return p.str()
	case c == 't':
		return p.lit("true", true)
	case c == 'f':
		return p.lit("false", false)
	case c == 'n':
		return p.lit("null", nil)
	case c == '-' || (c >= '0' && c <= '9'):
		return p.num()
	}
	return nil, errJSON
}

func (p *jsonParser) str() (string, error) {
	p.i++
	st := p.i
	for p.i < len(p.b) {
		c := p.b[p.i]
		if c == '"' {
			s := string(p.b[st:p.i])
			p.i++
			return s, nil
		}
		if c == '\\' {
			return p.strEsc(st)
		}
		if c < 0x20 {
			return "", errJSON
		}
		p.i++
	}
	return "", errJSON
}

func (p *jsonParser) strEsc(st int) (string, error) {
	out := append([]byte{}, p.b[st:p.i]...)
	for p.i < len(p.b) {
		c := p.b[p.i]
		switch {
		case c == '"':
			p.i++
			return string(out), nil
		case c == '\\':
			p.i++
			if p.i >= len(p.b) {
				return "", errJSON
			}
			switch p.b[p.i] {
			case 'n':
				out = append(out, '\n')
			case 't':
				out = append(out, '\t')
			case 'r':
				out = append(out, '\r')
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case '"', '\\', '/':
				out = append(out, p.b[p.i])
			case 'u':
				if p.i+4 >= len(p.b) {
					return "", errJSON
				}
				n, err := strconv.ParseUint(string(p.b[p.i+1:p.i+5]), 16, 32)
				if err != nil {
					return "", errJSON
				}
				out = append(out, []byte(string(rune(n)))...)
				p.i += 4
			default:
				return "", errJSON
			}
			p.i++
		case c < 0x20:
			return "", errJSON
		default:
			out = append(out, c)
			p.i++
		}
	}
	return "", errJSON
}

func (p *jsonParser) num() (interface{}, error) {
	st := p.i
	neg := false
	if p.b[p.i] == '-' {
		neg = true
		p.i++
	}
	var n int64
	d := 0
	if p.i < len(p.b) && p.b[p.i] == '0' {
		p.i++
		d = 1
	} else {
		for p.i < len(p.b) && p.b[p.i] >= '0' && p.b[p.i] <= '9' {
			if d < 18 {
				n = n*10 + int64(p.b[p.i]-'0')
			}
			d++
			p.i++
		}
	}
	if d == 0 {
		return nil, errJSON
	}
	if p.i < len(p.b) && (p.b[p.i] == '.' || p.b[p.i] == 'e' || p.b[p.i] == 'E') || d >= 16 {
		for p.i < len(p.b) {
			c := p.b[p.i]
			if !(c == '.' || c == 'e' || c == 'E' || c == '+' || c == '-' || (c >= '0' && c <= '9')) {
				break
			}
			p.i++
		}
		t := make([]byte, p.i-st)
		for i := range t {
			t[i] = byte(sym.Concrete(uint64(p.b[st+i])))
		}
		f, err := strconv.ParseFloat(string(t), 64)
		if err != nil {
			return nil, errJSON
		}
		return f, nil
	}
	if neg {
		n = -n
	}
	return float64(n), nil
}
