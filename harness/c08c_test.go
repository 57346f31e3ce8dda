package harness

import (
	"fmt"
	"reflect"

	"ustack"
)

type looseObj struct {
	X interface{}
	Y []interface{}
	M map[string]interface{}
	N map[string]map[string]float64
}

// loose makes a value out of what JSON turns into empty interfaces.
func loose(c *C, depth int) interface{} {
	r := c.R
	switch k := r.Intn(8); {
	case k == 0:
		return r.Intn(2) == 0
	case k == 1:
		return string("abc\u00e9<&>\u2028\"\\xyz"[:3+r.Intn(2)*2])
	case k == 2:
		return float64(r.Intn(1000) - 500)
	case k == 3:
		return r.NormFloat64() * 1e20
	case k == 4:
		return float64(int64(1)<<53 - int64(r.Intn(9)))
	case k == 5 && depth > 0:
		l := []interface{}{nil}
		for n := r.Intn(4); n > 0; n-- {
			l = append(l, loose(c, depth-1))
		}
		return l
	case depth > 0:
		m := map[string]interface{}{}
		for n := r.Intn(4); n > 0; n-- {
			m[string(rune('a'+r.Intn(26)))] = loose(c, depth-1)
		}
		return m
	}
	return "s"
}

// c08loose: JSON messages of types that leave the kind of value to the message.
func c08loose(c *C) {
	r := c.R
	var m interface{}
	var typ reflect.Type
	switch r.Intn(4) {
	case 0:
		m = map[string]interface{}{"k": loose(c, 2), "l": 12.0}
		typ = reflect.TypeOf(map[string]interface{}{})
	case 1:
		m = []interface{}{loose(c, 2), 1.5, loose(c, 1)}
		typ = reflect.TypeOf([]interface{}{})
	case 2:
		m = loose(c, 3)
		typ = reflect.TypeOf((*interface{})(nil)).Elem()
	default:
		m = looseObj{loose(c, 2), []interface{}{loose(c, 1), nil, 3.0}, map[string]interface{}{"z": loose(c, 1)},
			map[string]map[string]float64{"a": {"b": r.Float64()}}}
		typ = reflect.TypeOf(looseObj{})
	}
	c.Guard("codec", func() {
		a, ka := codecUnit(1<<14, 9, ustack.NewJSONCodec(typ))
		b, kb := codecUnit(1<<14, 9, ustack.NewJSONCodec(typ))
		cn := NewMemConn("c")
		a.Down(ustack.NewUStackContext().SetConnection(cn).SetMessage(m))
		if len(ka.bufs) != 1 {
			c.Fail("message %#v: %d were sent", m, len(ka.bufs))
		}
		b.Upw(ustack.NewUStackContext().SetConnection(cn).SetBuffer(ka.bufs[0]))
		if len(kb.msgs) != 1 {
			c.Fail("message %#v: %d were delivered", m, len(kb.msgs))
		}
		got := reflect.ValueOf(kb.msgs[0])
		if got.Kind() == reflect.Ptr {
			got = got.Elem()
		}
		if !reflect.DeepEqual(got.Interface(), m) {
			c.Fail("message %#v arrives as %#v", m, got.Interface())
		}
	})
	c.Sig(fmt.Sprintf("%#v", m))
}
