package drvtest

import (
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"
)

var specials = []string{"", "a", "ä€", "a b", "a+b", "100%", "%41", "a%2Fb", "?x=1", "#frag", "a&b=c", "k=v", "\"q\"", "'", "<>", "\\", "a;b", "[1]", "{x}", "null", "0", "true", "a:b", "~", "tab\there", "nl\nx", "\u2028", "𝔘", "$error", "err", " lead", "trail ", "..a", "*", "@"}

func genString(t *rapid.T, label string) string {
	switch k := rapid.IntRange(0, 39).Draw(t, label+"K"); {
	case k < 20:
		return rapid.SampledFrom(specials).Draw(t, label)
	case k < 39:
		return rapid.StringN(0, 12, -1).Draw(t, label)
	default:
		return strings.Repeat(rapid.SampledFrom([]string{"x", "é", "\"", "\n"}).Draw(t, label), rapid.SampledFrom([]int{100, 5000, 9000, 70000}).Draw(t, label+"N"))
	}
}

func genInt(t *rapid.T, bits int, label string) int64 {
	min, max := int64(math.MinInt64), int64(math.MaxInt64)
	if bits == 32 {
		min, max = math.MinInt32, math.MaxInt32
	}
	if rapid.Bool().Draw(t, label+"B") {
		c := []int64{0, 1, -1, min, max, min + 1, max - 1, 1 << 24, -(1 << 24) - 1}
		if bits == 64 {
			c = append(c, 1<<53, 1<<53+1, -(1<<53)-1, 1<<31, 1<<32)
		}
		return rapid.SampledFrom(c).Draw(t, label)
	}
	return rapid.Int64Range(min, max).Draw(t, label)
}

func genUint(t *rapid.T, bits int, label string) uint64 {
	max := uint64(math.MaxUint64)
	if bits == 32 {
		max = math.MaxUint32
	}
	if rapid.Bool().Draw(t, label+"B") {
		return rapid.SampledFrom([]uint64{0, 1, max, max - 1, max/2 + 1, max / 2, 1<<31 - 1, 1 << 31}).Draw(t, label)
	}
	return rapid.Uint64Range(0, max).Draw(t, label)
}

func genFloat(t *rapid.T, bits int, finite bool, label string) float64 {
	if f := anyFloat(t, bits, finite, label); f != 0 {
		return f
	}
	return 0 // not -0, which the protobuf library takes for an unset field
}

func anyFloat(t *rapid.T, bits int, finite bool, label string) float64 {
	if rapid.Bool().Draw(t, label+"B") {
		c := []float64{0, 1, -1, 0.1, -2.5, 1e21, 1e-7, 123456789, 16777217}
		if bits == 64 {
			c = append(c, math.MaxFloat64, math.SmallestNonzeroFloat64, 1<<53, 1e300)
		} else {
			c = append(c, math.MaxFloat32, math.SmallestNonzeroFloat32)
		}
		if !finite {
			c = append(c, math.NaN(), math.Inf(1), math.Inf(-1))
		}
		return rapid.SampledFrom(c).Draw(t, label)
	}
	if bits == 32 {
		return float64(rapid.Float32().Draw(t, label))
	}
	return rapid.Float64().Draw(t, label)
}

// genScalar draws a value of the field's kind; finite: no NaN or infinity.
func genScalar(t *rapid.T, fd protoreflect.FieldDescriptor, finite bool, label string) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(rapid.Bool().Draw(t, label))
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		if rapid.IntRange(0, 7).Draw(t, label+"U") == 0 {
			return protoreflect.ValueOfEnum(protoreflect.EnumNumber(genInt(t, 32, label)))
		}
		return protoreflect.ValueOfEnum(vs.Get(rapid.IntRange(0, vs.Len()-1).Draw(t, label)).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(genInt(t, 32, label)))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(genInt(t, 64, label))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(genUint(t, 32, label)))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(genUint(t, 64, label))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(genFloat(t, 32, finite, label)))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(genFloat(t, 64, finite, label))
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(genString(t, label))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes(rapid.SliceOfN(rapid.Byte(), 0, 10).Draw(t, label))
	}
	panic(fd.Kind())
}

// genPath draws a value a path segment can carry.
func genPath(t *rapid.T, fd protoreflect.FieldDescriptor, label string) protoreflect.Value {
	v := genScalar(t, fd, false, label)
	if fd.Kind() == protoreflect.StringKind {
		s := strings.ReplaceAll(v.String(), "/", "|")
		if s == "" || s == "." || s == ".." {
			s += "x"
		}
		if len(s) > 2000 {
			s = strings.ToValidUTF8(s[:2000], "")
		}
		return protoreflect.ValueOfString(s)
	}
	return v
}

// genQueryList draws elements a repeated query parameter can carry.
func genQueryList(t *rapid.T, fd protoreflect.FieldDescriptor, l protoreflect.List, label string) {
	n := rapid.IntRange(0, 3).Draw(t, label+"N")
	for i := 0; i < n; i++ {
		v := genScalar(t, fd, true, label)
		if fd.Kind() == protoreflect.StringKind {
			s := v.String()
			if n == 1 {
				s = strings.ReplaceAll(s, ",", ";")
			}
			v = protoreflect.ValueOfString(short(s))
		}
		l.Append(v)
	}
}

func short(s string) string {
	if len(s) > 2000 {
		return strings.ToValidUTF8(s[:2000], "")
	}
	return s
}

func isExternal(md protoreflect.MessageDescriptor) bool {
	return strings.HasPrefix(string(md.FullName()), "google.protobuf.")
}

func genExternal(t *rapid.T, m protoreflect.Message, label string) {
	set := func(x proto.Message) { proto.Merge(m.Interface(), x) }
	str := func() string { return genString(t, label) }
	switch m.Descriptor().FullName() {
	case "google.protobuf.Timestamp":
		m.Set(m.Descriptor().Fields().ByName("seconds"), protoreflect.ValueOfInt64(rapid.Int64Range(-62135596800, 253402300799).Draw(t, label)))
		m.Set(m.Descriptor().Fields().ByName("nanos"), protoreflect.ValueOfInt32(rapid.Int32Range(0, 999999999).Draw(t, label)))
	case "google.protobuf.Duration":
		s := rapid.Int64Range(-315576000000, 315576000000).Draw(t, label)
		n := rapid.Int32Range(0, 999999999).Draw(t, label)
		if s < 0 {
			n = -n
		}
		set(&durationpb.Duration{Seconds: s, Nanos: n})
	case "google.protobuf.StringValue":
		set(wrapperspb.String(str()))
	case "google.protobuf.Any":
		if rapid.Bool().Draw(t, label+"A") {
			a, err := anypb.New(wrapperspb.String(str()))
			if err != nil {
				panic(err)
			}
			set(a)
		}
	case "google.protobuf.Struct":
		s := &structpb.Struct{Fields: map[string]*structpb.Value{}}
		for i := rapid.IntRange(0, 2).Draw(t, label+"N"); i > 0; i-- {
			s.Fields[fmt.Sprintf("k%d%s", i, str())] = rapid.SampledFrom([]*structpb.Value{structpb.NewNullValue(), structpb.NewBoolValue(true), structpb.NewNumberValue(-1.5), structpb.NewStringValue(str()), structpb.NewListValue(&structpb.ListValue{Values: []*structpb.Value{structpb.NewNumberValue(3)}})}).Draw(t, label)
		}
		set(s)
	default:
		panic(m.Descriptor().FullName())
	}
}

// genMessage fills m with values any message can have. at locates the fields
// of a request ("path", "query", otherwise free); nil for all free.
func genMessage(t *rapid.T, m protoreflect.Message, depth int, at func(protoreflect.FieldDescriptor) string) {
	md := m.Descriptor()
	if isExternal(md) {
		genExternal(t, m, "ext")
		return
	}
	for i := 0; i < md.Oneofs().Len(); i++ {
		o := md.Oneofs().Get(i)
		if o.IsSynthetic() {
			continue
		}
		if k := rapid.IntRange(-1, o.Fields().Len()-1).Draw(t, string(o.Name())); k >= 0 {
			genField(t, m, o.Fields().Get(k), depth, at)
		}
	}
	for i := 0; i < md.Fields().Len(); i++ {
		fd := md.Fields().Get(i)
		if o := fd.ContainingOneof(); o != nil && !o.IsSynthetic() {
			continue
		}
		if fd.HasOptionalKeyword() && !(at != nil && at(fd) == "path") && rapid.Bool().Draw(t, "unset") {
			continue
		}
		if fd.Kind() == protoreflect.MessageKind && !fd.IsMap() && !fd.IsList() && rapid.Bool().Draw(t, "nil") {
			continue
		}
		genField(t, m, fd, depth, at)
	}
}

func genField(t *rapid.T, m protoreflect.Message, fd protoreflect.FieldDescriptor, depth int, at func(protoreflect.FieldDescriptor) string) {
	label := string(fd.Name())
	loc := ""
	if at != nil {
		loc = at(fd)
	}
	switch {
	case fd.IsMap():
		if depth <= 0 && fd.MapValue().Kind() == protoreflect.MessageKind {
			return
		}
		mp := m.Mutable(fd).Map()
		for i := rapid.IntRange(0, 2).Draw(t, label+"N"); i > 0; i-- {
			k := genScalar(t, fd.MapKey(), true, label).MapKey()
			if fd.MapValue().Kind() == protoreflect.MessageKind {
				v := mp.NewValue()
				genMessage(t, v.Message(), depth-1, nil)
				mp.Set(k, v)
			} else {
				mp.Set(k, genScalar(t, fd.MapValue(), false, label))
			}
		}
	case fd.IsList():
		if depth <= 0 && fd.Kind() == protoreflect.MessageKind {
			return
		}
		l := m.Mutable(fd).List()
		if loc == "query" {
			genQueryList(t, fd, l, label)
			return
		}
		for i := rapid.IntRange(0, 3).Draw(t, label+"N"); i > 0; i-- {
			if fd.Kind() == protoreflect.MessageKind {
				v := l.NewElement()
				genMessage(t, v.Message(), depth-1, nil)
				l.Append(v)
			} else {
				l.Append(genScalar(t, fd, false, label))
			}
		}
	case fd.Kind() == protoreflect.MessageKind:
		if depth <= 0 {
			return
		}
		genMessage(t, m.Mutable(fd).Message(), depth-1, nil)
	case loc == "path":
		m.Set(fd, genPath(t, fd, label))
	default:
		v := genScalar(t, fd, false, label)
		if loc == "query" && fd.Kind() == protoreflect.StringKind {
			v = protoreflect.ValueOfString(short(v.String()))
		}
		m.Set(fd, v)
	}
}

func newMessage(t *rapid.T, mk func() proto.Message, at func(protoreflect.FieldDescriptor) string) proto.Message {
	m := mk()
	genMessage(t, m.ProtoReflect(), 2, at)
	return m
}

func interesting(m proto.Message) bool {
	n := 0
	m.ProtoReflect().Range(func(protoreflect.FieldDescriptor, protoreflect.Value) bool { n++; return true })
	return n > 0
}

// cutSeg takes the segment of a path template with a variable apart.
func cutSeg(seg string) (pre string, name protoreflect.Name, suf string, ok bool) {
	pre, rest, ok := strings.Cut(seg, "{")
	if !ok {
		return seg, "", "", false
	}
	v, suf, _ := strings.Cut(rest, "}")
	return pre, protoreflect.Name(v), suf, true
}

func valid(s string) bool { return utf8.ValidString(s) }
