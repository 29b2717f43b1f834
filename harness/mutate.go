package harness

import (
	"google.golang.org/protobuf/encoding/protowire"
)

// A wire field: a message is a list of them where it can be read as one.
type wfield struct {
	num protowire.Number
	typ protowire.Type
	val []byte    // raw value of all but messages
	sub []*wfield // for a length delimited field that is a message
	msg bool
}

func parseWire(b []byte, depth int) ([]*wfield, bool) {
	ret := []*wfield{}
	for len(b) > 0 {
		n, t, l := protowire.ConsumeTag(b)
		if l < 0 || t == protowire.StartGroupType || t == protowire.EndGroupType {
			return nil, false
		}
		b = b[l:]
		f := &wfield{num: n, typ: t}
		if t == protowire.BytesType {
			v, l := protowire.ConsumeBytes(b)
			if l < 0 {
				return nil, false
			}
			if len(v) > 0 && depth > 0 {
				if s, ok := parseWire(v, depth-1); ok {
					f.sub, f.msg = s, true
				}
			}
			f.val = append([]byte{}, v...)
			b = b[l:]
		} else {
			l := protowire.ConsumeFieldValue(n, t, b)
			if l < 0 {
				return nil, false
			}
			f.val = append([]byte{}, b[:l]...)
			b = b[l:]
		}
		ret = append(ret, f)
	}
	return ret, true
}

func encodeWire(fs []*wfield) []byte {
	b := []byte{}
	for _, f := range fs {
		b = protowire.AppendTag(b, f.num, f.typ)
		if f.typ == protowire.BytesType {
			v := f.val
			if f.msg {
				v = encodeWire(f.sub)
			}
			b = protowire.AppendBytes(b, v)
		} else {
			b = append(b, f.val...)
		}
	}
	return b
}

type wplace struct {
	list *[]*wfield
	i    int
}

func places(fs *[]*wfield) []wplace {
	var ret []wplace
	for i, f := range *fs {
		ret = append(ret, wplace{fs, i})
		if f.msg {
			ret = append(ret, places(&f.sub)...)
		}
	}
	return ret
}

// mutate applies the mutations to an encoded message; salt makes them differ between resources.
func mutate(b []byte, muts []any, salt int) []byte {
	b = append([]byte{}, b...)
	for _, x := range muts {
		m := x.(obj)
		at, v := (num(m["at"])+salt*337)%1000, byte(num(m["v"]))
		switch str(m["op"]) {
		case "trunc":
			b = b[:len(b)*at/1000]
			continue
		case "flip":
			if len(b) > 0 {
				b[len(b)*at/1000] ^= 1 << (v % 8)
			}
			continue
		case "ins":
			i := len(b) * at / 1000
			b = append(b[:i:i], append([]byte{v}, b[i:]...)...)
			continue
		}
		fs, ok := parseWire(b, 12)
		if !ok {
			continue
		}
		ps := places(&fs)
		if len(ps) == 0 {
			continue
		}
		p := ps[len(ps)*at/1000]
		l := *p.list
		f := l[p.i]
		switch str(m["op"]) {
		case "del":
			*p.list = append(append([]*wfield{}, l[:p.i]...), l[p.i+1:]...)
		case "dup":
			*p.list = append(append([]*wfield{}, l[:p.i+1]...), l[p.i:]...)
		case "empty":
			if f.typ == protowire.BytesType {
				f.val, f.sub, f.msg = nil, nil, false
			}
		case "zero":
			for i := range f.val {
				if f.typ != protowire.BytesType && i < len(f.val)-1 {
					f.val[i] = 0x80
				} else {
					f.val[i] = 0
				}
			}
			f.msg = false
		case "wire":
			f.num = protowire.Number(int(v)%40 + 1)
		case "len":
			if f.typ == protowire.BytesType && !f.msg && len(f.val) > 0 {
				f.val = f.val[:len(f.val)*int(v)/256]
			}
		case "swap":
			q := ps[len(ps)*int(v)/256]
			g := (*q.list)[q.i]
			if f.typ == g.typ && !f.msg && !g.msg {
				f.val, g.val = g.val, f.val
			}
		}
		b = encodeWire(fs)
	}
	return b
}
