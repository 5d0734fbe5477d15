// Runs the Go v2 generator of the repository on the schema corpus. It is placed
// into /repo/v2 by a build overlay.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/loopholelabs/polyglot/v2/generator/golang"
	"google.golang.org/protobuf/proto"
	dp "google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

type ftype = dp.FieldDescriptorProto_Type

var scalars = []struct {
	name string
	t    ftype
}{
	{"bool", dp.FieldDescriptorProto_TYPE_BOOL},
	{"int32", dp.FieldDescriptorProto_TYPE_INT32},
	{"sint32", dp.FieldDescriptorProto_TYPE_SINT32},
	{"sfixed32", dp.FieldDescriptorProto_TYPE_SFIXED32},
	{"uint32", dp.FieldDescriptorProto_TYPE_UINT32},
	{"fixed32", dp.FieldDescriptorProto_TYPE_FIXED32},
	{"int64", dp.FieldDescriptorProto_TYPE_INT64},
	{"sint64", dp.FieldDescriptorProto_TYPE_SINT64},
	{"sfixed64", dp.FieldDescriptorProto_TYPE_SFIXED64},
	{"uint64", dp.FieldDescriptorProto_TYPE_UINT64},
	{"fixed64", dp.FieldDescriptorProto_TYPE_FIXED64},
	{"float", dp.FieldDescriptorProto_TYPE_FLOAT},
	{"double", dp.FieldDescriptorProto_TYPE_DOUBLE},
	{"string", dp.FieldDescriptorProto_TYPE_STRING},
	{"bytes", dp.FieldDescriptorProto_TYPE_BYTES},
}

type field struct {
	name string
	t    ftype
	of   string // message or enum
	rep  bool
	key  ftype // map
	num  int32 // field number; its position, if zero
	opt  bool  // declared "optional"
	req  bool  // proto2: declared "required"
	def  string
}

// scope: where the types of the schema are declared
var scope = ".corpus."

func msg(name string, fs ...field) *dp.DescriptorProto {
	m := &dp.DescriptorProto{Name: proto.String(name)}
	for i, f := range fs {
		fd := &dp.FieldDescriptorProto{
			Name: proto.String(f.name), Number: proto.Int32(int32(i + 1)),
			Label: dp.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: f.t.Enum(), JsonName: proto.String(f.name),
		}
		if f.rep {
			fd.Label = dp.FieldDescriptorProto_LABEL_REPEATED.Enum()
		}
		if f.req {
			fd.Label = dp.FieldDescriptorProto_LABEL_REQUIRED.Enum()
		}
		if f.def != "" {
			fd.DefaultValue = proto.String(f.def)
		}
		if f.num != 0 {
			fd.Number = proto.Int32(f.num)
		}
		if f.opt {
			// as protoc does: a oneof of its own
			fd.Proto3Optional = proto.Bool(true)
			fd.OneofIndex = proto.Int32(int32(len(m.OneofDecl)))
			m.OneofDecl = append(m.OneofDecl, &dp.OneofDescriptorProto{Name: proto.String("_" + f.name)})
		}
		if f.of != "" {
			fd.TypeName = proto.String(scope + f.of)
		}
		if f.key != 0 {
			entry := entryName(f.name)
			val := fd.GetTypeName()
			e := msg(entry, field{name: "key", t: f.key}, field{name: "value", t: f.t})
			if val != "" {
				e.Field[1].TypeName = proto.String(val)
			}
			e.Options = &dp.MessageOptions{MapEntry: proto.Bool(true)}
			m.NestedType = append(m.NestedType, e)
			fd.Label = dp.FieldDescriptorProto_LABEL_REPEATED.Enum()
			fd.Type = dp.FieldDescriptorProto_TYPE_MESSAGE.Enum()
			fd.TypeName = proto.String(scope + name + "." + entry)
		}
		m.Field = append(m.Field, fd)
	}
	return m
}

func entryName(s string) string {
	var r []byte
	up := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' {
			up = true
			continue
		}
		if up && 'a' <= c && c <= 'z' {
			c -= 32
		}
		up = false
		r = append(r, c)
	}
	return string(r) + "Entry"
}

func enum(name string, vals ...string) *dp.EnumDescriptorProto {
	e := &dp.EnumDescriptorProto{Name: proto.String(name)}
	for i, v := range vals {
		e.Value = append(e.Value, &dp.EnumValueDescriptorProto{Name: proto.String(v), Number: proto.Int32(int32(i))})
	}
	return e
}

const (
	tMsg  = dp.FieldDescriptorProto_TYPE_MESSAGE
	tEnum = dp.FieldDescriptorProto_TYPE_ENUM
	tStr  = dp.FieldDescriptorProto_TYPE_STRING
	tU32  = dp.FieldDescriptorProto_TYPE_UINT32
	tByt  = dp.FieldDescriptorProto_TYPE_BYTES
	tI64  = dp.FieldDescriptorProto_TYPE_INT64
	tBool = dp.FieldDescriptorProto_TYPE_BOOL
	tI32  = dp.FieldDescriptorProto_TYPE_INT32
)

func corpus() *dp.FileDescriptorProto {
	f := &dp.FileDescriptorProto{
		Name: proto.String("corpus.proto"), Package: proto.String("corpus"), Syntax: proto.String("proto3"),
		Options: &dp.FileOptions{GoPackage: proto.String("corpus/corpus")},
	}
	f.EnumType = append(f.EnumType, enum("color", "NONE", "RED", "GREEN"))
	var all, lists, maps []field
	for _, s := range scalars {
		all = append(all, field{name: "f_" + s.name, t: s.t})
		lists = append(lists, field{name: "l_" + s.name, t: s.t, rep: true})
		maps = append(maps, field{name: "m_" + s.name, t: s.t, key: tStr})
	}
	all = append(all, field{name: "f_color", t: tEnum, of: "color"})
	lists = append(lists, field{name: "l_color", t: tEnum, of: "color", rep: true})
	maps = append(maps, field{name: "m_color", t: tEnum, of: "color", key: tU32})
	var keys []field
	for _, s := range scalars {
		switch s.name {
		case "float", "double", "bytes":
			continue
		}
		keys = append(keys, field{name: "k_" + s.name, t: tU32, key: s.t})
	}
	f.MessageType = append(f.MessageType,
		msg("Inner", field{name: "id", t: tU32}, field{name: "name", t: tStr}),
		msg("Scalars", all...),
		// declaration order differs from the order on the wire
		msg("Mixed",
			field{name: "inner_message", t: tMsg, of: "Inner"},
			field{name: "tags", t: tStr, rep: true},
			field{name: "count", t: tI64},
			field{name: "by_name", t: tMsg, of: "Inner", key: tStr},
			field{name: "raw", t: tByt},
			field{name: "items", t: tMsg, of: "Inner", rep: true}),
		msg("Mixed2",
			field{name: "second", t: tMsg, of: "Inner"},
			field{name: "numbers", t: tI32, rep: true},
			field{name: "by_id", t: tMsg, of: "Inner", key: tU32},
			field{name: "flag", t: tBool}),
		msg("Node", field{name: "value", t: tI64}, field{name: "left", t: tMsg, of: "Node"}, field{name: "right", t: tMsg, of: "Node"}),
		msg("Forest", field{name: "trees", t: tMsg, of: "Node", rep: true}, field{name: "named", t: tMsg, of: "Forest", key: tStr}, field{name: "children", t: tMsg, of: "Forest", rep: true}),
		msg("Grove", field{name: "value", t: tI64}, field{name: "named", t: tMsg, of: "Grove", key: tStr}, field{name: "children", t: tMsg, of: "Grove", rep: true}),
		msg("Empty"),
		msg("Tree", field{name: "left", t: tMsg, of: "Tree"}, field{name: "right", t: tMsg, of: "Tree"}),
		msg("OnlyMessages", field{name: "a", t: tMsg, of: "Inner"}, field{name: "b", t: tMsg, of: "Inner"}),
	)
	for _, g := range []struct {
		name   string
		fields []field
	}{{"Lists", lists}, {"Maps", maps}, {"Keys", keys}} {
		// few to a message: the verifier looks at every combination of empty and
		// filled fields
		for i := 0; i < len(g.fields); i += 3 {
			f.MessageType = append(f.MessageType, msg(fmt.Sprintf("%s%d", g.name, i/3+1), g.fields[i:min(i+3, len(g.fields))]...))
		}
	}
	// a message declared inside another, with an enum of its own
	outer := msg("Outer", field{name: "kind", t: tEnum, of: "Outer.Mode"}, field{name: "part", t: tMsg, of: "Outer.Part"}, field{name: "parts", t: tMsg, of: "Outer.Part", rep: true})
	outer.NestedType = append(outer.NestedType, msg("Part", field{name: "size", t: tU32}, field{name: "mode", t: tEnum, of: "Outer.Mode"}))
	outer.EnumType = append(outer.EnumType, enum("Mode", "OFF", "ON"))
	// and inside that one, with an enum and a map
	part := outer.NestedType[0]
	deep := msg("Deep", field{name: "level", t: tEnum, of: "Outer.Part.Level"}, field{name: "by_level", t: tStr, key: tU32})
	for _, e := range deep.NestedType {
		// its entry type is declared where it is
		for _, fd := range deep.Field {
			if fd.GetType() == tMsg {
				fd.TypeName = proto.String(".corpus.Outer.Part.Deep." + e.GetName())
			}
		}
	}
	part.NestedType = append(part.NestedType, deep)
	part.EnumType = append(part.EnumType, enum("Level", "LOW", "HIGH"))
	f.MessageType = append(f.MessageType, outer, msg("Holds", field{name: "deep", t: tMsg, of: "Outer.Part.Deep"}, field{name: "level", t: tEnum, of: "Outer.Part.Level"}))
	// spellings of names
	f.MessageType = append(f.MessageType, msg("snake_case_name", field{name: "lower", t: tU32}, field{name: "Upper", t: tStr}, field{name: "mixedCase", t: tBool},
		field{name: "with_1_digit", t: tI64}, field{name: "f2", t: tByt}, field{name: "type", t: tU32}, field{name: "map", t: tStr, rep: true}, field{name: "ALL_CAPS", t: tStr, key: tStr}))
	// names of the generated methods
	f.MessageType = append(f.MessageType, msg("Taken", field{name: "error", t: tStr}, field{name: "encode", t: tEnum, of: "color"}, field{name: "Decode", t: tU32, rep: true}),
		msg("Taken2", field{name: "id", t: tU32}, field{name: "error", t: tMsg, of: "Inner"}, field{name: "encode", t: tMsg, of: "Inner", rep: true}, field{name: "decode", t: tStr, key: tStr}))
	// alternatives
	choice := msg("Choice", field{name: "number", t: tI32}, field{name: "text", t: tStr}, field{name: "inner", t: tMsg, of: "Inner"}, field{name: "after", t: tBool})
	choice.OneofDecl = append(choice.OneofDecl, &dp.OneofDescriptorProto{Name: proto.String("value")})
	for _, fd := range choice.Field[:3] {
		fd.OneofIndex = proto.Int32(0)
	}
	f.MessageType = append(f.MessageType, choice)
	// numbers that are not in the order of declaration, with gaps
	f.MessageType = append(f.MessageType,
		msg("Numbers", field{name: "nine", t: tU32, num: 9}, field{name: "two", t: tStr, num: 2}, field{name: "huge", t: tBool, num: 536870911}, field{name: "one", t: tI64, num: 1}),
		msg("NumberedLists", field{name: "c", t: tStr, rep: true, num: 30}, field{name: "a", t: tI32, rep: true, num: 10}, field{name: "b", t: tByt, rep: true, num: 20}),
		msg("NumberedMessages", field{name: "id", t: tU32, num: 8}, field{name: "z", t: tMsg, of: "Inner", num: 3}, field{name: "by_key", t: tU32, key: tStr, num: 2}, field{name: "n", t: tMsg, of: "Numbers", num: 1}),
		// the keyword "optional"
		msg("Optionals", field{name: "number", t: tU32, opt: true}, field{name: "plain", t: tStr}, field{name: "text", t: tStr, opt: true}, field{name: "raw", t: tByt, opt: true},
			field{name: "color", t: tEnum, of: "color", opt: true}, field{name: "inner", t: tMsg, of: "Inner", opt: true}))
	// options that only concern other encodings, and the documentation
	other := msg("Options", field{name: "packed", t: tI32, rep: true}, field{name: "unpacked", t: tU32, rep: true}, field{name: "old", t: tStr}, field{name: "renamed", t: tBool}, field{name: "text", t: tStr})
	other.Field[0].Options = &dp.FieldOptions{Packed: proto.Bool(true)}
	other.Field[1].Options = &dp.FieldOptions{Packed: proto.Bool(false)}
	other.Field[2].Options = &dp.FieldOptions{Deprecated: proto.Bool(true)}
	other.Field[3].JsonName = proto.String("anotherName")
	other.Field[4].Options = &dp.FieldOptions{Ctype: dp.FieldOptions_CORD.Enum()}
	other.Options = &dp.MessageOptions{Deprecated: proto.Bool(true)}
	other.ReservedName = []string{"gone"}
	other.ReservedRange = []*dp.DescriptorProto_ReservedRange{{Start: proto.Int32(100), End: proto.Int32(200)}}
	f.MessageType = append(f.MessageType, other)
	// constants that are not numbered 0, 1, 2
	wide := enum("Wide", "WIDE_ZERO", "WIDE_MINUS", "WIDE_BIG", "WIDE_ALIAS")
	wide.Value[1].Number, wide.Value[2].Number, wide.Value[3].Number = proto.Int32(-1), proto.Int32(1<<31-1), proto.Int32(-1)
	wide.Options = &dp.EnumOptions{AllowAlias: proto.Bool(true)}
	f.EnumType = append(f.EnumType, wide)
	f.MessageType = append(f.MessageType, msg("Wides", field{name: "one", t: tEnum, of: "Wide"}, field{name: "all", t: tEnum, of: "Wide", rep: true}, field{name: "by_text", t: tEnum, of: "Wide", key: tStr}))
	// the same names in other scopes
	f.EnumType = append(f.EnumType, enum("Mode", "MODE_A", "MODE_B", "MODE_C"))
	f.MessageType = append(f.MessageType,
		msg("Part", field{name: "name", t: tStr}, field{name: "mode", t: tEnum, of: "Mode"}, field{name: "items", t: tStr, key: tU32}),
		msg("Parts", field{name: "items", t: tMsg, of: "Part", key: tU32}, field{name: "inner", t: tMsg, of: "Outer.Part", rep: true},
			field{name: "one", t: tMsg, of: "Part"}, field{name: "modes", t: tEnum, of: "Outer.Mode", rep: true}, field{name: "mode", t: tEnum, of: "Mode"}),
		// more spellings
		msg("Spelled", field{name: "_lead", t: tU32}, field{name: "trail_", t: tStr}, field{name: "x__y", t: tBool}, field{name: "a_B", t: tI64}, field{name: "n64_bit", t: tI32}, field{name: "MIXED_Case", t: tByt}))
	// many fields
	messages := []field{{name: "id", t: tU32}}
	var many []field
	for i := 0; i < 150; i++ {
		many = append(many, field{name: fmt.Sprintf("f%d", i), t: scalars[i%len(scalars)].t})
		if i < 8 {
			messages = append(messages, field{name: fmt.Sprintf("m%d", i), t: tMsg, of: "Inner"})
		}
	}
	f.MessageType = append(f.MessageType, msg("Many", many...), msg("ManyMessages", messages...))
	f.Service = append(f.Service, &dp.ServiceDescriptorProto{Name: proto.String("Caller"), Method: []*dp.MethodDescriptorProto{
		{Name: proto.String("Call"), InputType: proto.String(".corpus.Inner"), OutputType: proto.String(".corpus.Mixed")}}})
	f.SourceCodeInfo = &dp.SourceCodeInfo{Location: []*dp.SourceCodeInfo_Location{{Path: []int32{4, 0}, Span: []int32{0, 0, 9}, LeadingComments: proto.String(" a message */ \n// of the corpus\n")}}}
	return f
}

// older is a schema in the second version of the language.
func older() *dp.FileDescriptorProto {
	f := &dp.FileDescriptorProto{
		Name: proto.String("corpus.proto"), Package: proto.String("corpus"),
		Options: &dp.FileOptions{GoPackage: proto.String("corpus/corpus")},
	}
	level := enum("Level", "LEVEL_LOW", "LEVEL_HIGH", "LEVEL_TOP")
	for i, n := range []int32{3, -7, 1000} {
		level.Value[i].Number = proto.Int32(n)
	}
	f.EnumType = append(f.EnumType, level)
	var required, optional, lists []field
	for _, s := range scalars {
		required = append(required, field{name: "r_" + s.name, t: s.t, req: true})
		optional = append(optional, field{name: "o_" + s.name, t: s.t})
		lists = append(lists, field{name: "l_" + s.name, t: s.t, rep: true})
	}
	required = append(required, field{name: "r_level", t: tEnum, of: "Level", req: true})
	optional = append(optional, field{name: "o_level", t: tEnum, of: "Level"})
	all := msg("Defaults", field{name: "number", t: tI32, def: "-5"}, field{name: "text", t: tStr, def: "a \"text\""}, field{name: "level", t: tEnum, of: "Level", def: "LEVEL_TOP"},
		field{name: "flag", t: tBool, def: "true"}, field{name: "raw", t: tByt, def: "\\001\\377"}, field{name: "real", t: dp.FieldDescriptorProto_TYPE_DOUBLE, def: "inf"})
	all.ExtensionRange = []*dp.DescriptorProto_ExtensionRange{{Start: proto.Int32(100), End: proto.Int32(200)}}
	f.MessageType = append(f.MessageType,
		msg("Required", required...), msg("Optional", optional...), all,
		msg("Lists1", lists[:5]...), msg("Lists2", lists[5:10]...), msg("Lists3", lists[10:]...),
		msg("Levels", field{name: "one", t: tEnum, of: "Level", req: true}, field{name: "all", t: tEnum, of: "Level", rep: true}),
		msg("Nested", field{name: "id", t: tU32, req: true}, field{name: "must", t: tMsg, of: "Defaults", req: true}, field{name: "may", t: tMsg, of: "Required"},
			field{name: "many", t: tMsg, of: "Levels", rep: true}, field{name: "by_id", t: tMsg, of: "Optional", key: tI64}))
	return f
}

// named is a schema whose package has several components, or none.
func named(pkg, path string) *dp.FileDescriptorProto {
	f := &dp.FileDescriptorProto{
		Name: proto.String("some/dir/corpus_file.v1.proto"), Syntax: proto.String("proto3"),
		Options: &dp.FileOptions{GoPackage: proto.String(path)},
	}
	scope = "."
	if pkg != "" {
		f.Package = proto.String(pkg)
		scope = "." + pkg + "."
	}
	f.EnumType = append(f.EnumType, enum("Mode", "MODE_NONE", "MODE_ON", "off"))
	part := msg("Part", field{name: "id", t: tU32}, field{name: "mode", t: tEnum, of: "Mode"}, field{name: "deep", t: tMsg, of: "Part.Deep"}, field{name: "state", t: tEnum, of: "Part.State"})
	part.EnumType = append(part.EnumType, enum("State", "OPEN", "SHUT"))
	part.NestedType = append(part.NestedType, msg("Deep", field{name: "raw", t: tByt}, field{name: "modes", t: tEnum, of: "Mode", rep: true}))
	f.MessageType = append(f.MessageType, part,
		msg("Whole", field{name: "name", t: tStr}, field{name: "first", t: tMsg, of: "Part"}, field{name: "parts", t: tMsg, of: "Part", rep: true},
			field{name: "by_name", t: tMsg, of: "Part", key: tStr}, field{name: "modes", t: tEnum, of: "Mode", key: tI64}),
		msg("Nothing"))
	return f
}

// schemaField is a field of a message as the schema declares it.
type schemaField struct {
	Msg, Name, Type, Key string
	List                 bool
}

var goTypes = map[dp.FieldDescriptorProto_Type]string{
	dp.FieldDescriptorProto_TYPE_BOOL: "bool", dp.FieldDescriptorProto_TYPE_STRING: "string", dp.FieldDescriptorProto_TYPE_BYTES: "[]byte",
	dp.FieldDescriptorProto_TYPE_INT32: "int32", dp.FieldDescriptorProto_TYPE_SINT32: "int32", dp.FieldDescriptorProto_TYPE_SFIXED32: "int32",
	dp.FieldDescriptorProto_TYPE_INT64: "int64", dp.FieldDescriptorProto_TYPE_SINT64: "int64", dp.FieldDescriptorProto_TYPE_SFIXED64: "int64",
	dp.FieldDescriptorProto_TYPE_UINT32: "uint32", dp.FieldDescriptorProto_TYPE_FIXED32: "uint32",
	dp.FieldDescriptorProto_TYPE_UINT64: "uint64", dp.FieldDescriptorProto_TYPE_FIXED64: "uint64",
	dp.FieldDescriptorProto_TYPE_FLOAT: "float32", dp.FieldDescriptorProto_TYPE_DOUBLE: "float64",
}

func typeOf(fd *dp.FieldDescriptorProto) string {
	switch fd.GetType() {
	case tMsg:
		return "message " + strings.TrimPrefix(fd.GetTypeName(), scope)
	case tEnum:
		return "enum " + strings.TrimPrefix(fd.GetTypeName(), scope)
	}
	return goTypes[fd.GetType()]
}

func declared(at string, ms []*dp.DescriptorProto) (r []schemaField) {
	for _, m := range ms {
		entries := map[string]*dp.DescriptorProto{}
		for _, e := range m.NestedType {
			if e.GetOptions().GetMapEntry() {
				entries[scope+at+m.GetName()+"."+e.GetName()] = e
			}
		}
		r = append(r, schemaField{Msg: at + m.GetName()})
		for _, fd := range m.Field {
			x := schemaField{Msg: at + m.GetName(), Name: fd.GetName(), Type: typeOf(fd), List: fd.GetLabel() == dp.FieldDescriptorProto_LABEL_REPEATED}
			if e := entries[fd.GetTypeName()]; e != nil {
				x.Key, x.Type, x.List = typeOf(e.Field[0]), typeOf(e.Field[1]), false
			}
			r = append(r, x)
		}
		var nested []*dp.DescriptorProto
		for _, e := range m.NestedType {
			if !e.GetOptions().GetMapEntry() {
				nested = append(nested, e)
			}
		}
		r = append(r, declared(at+m.GetName()+".", nested)...)
	}
	return
}

func main() {
	f := corpus()
	if len(os.Args) > 2 && os.Args[2] == "proto2" {
		f = older()
	}
	if len(os.Args) > 2 && os.Args[2] == "plain" {
		f = named("", "example.com/shop/api;shop")
	}
	if len(os.Args) > 2 && os.Args[2] == "enums" {
		f = named("corpus", "corpus/corpus")
		f.MessageType = nil
	}
	if len(os.Args) > 2 && os.Args[2] == "dotted" {
		f = named("acme.shop_v2.api", "example.com/shop/api")
	}
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: []string{f.GetName()}, ProtoFile: []*dp.FileDescriptorProto{f}}
	// through the wire form, as protoc would hand it over
	b, err := proto.Marshal(req)
	g := golang.New()
	if err == nil {
		req, err = g.UnmarshalRequest(b)
	}
	var res *pluginpb.CodeGeneratorResponse
	if err == nil {
		res, err = g.Generate(req)
	}
	if err == nil && res.GetError() != "" {
		err = fmt.Errorf("%s", res.GetError())
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	js, err := json.Marshal(declared("", f.MessageType))
	if err == nil {
		err = os.WriteFile(filepath.Join(os.Args[1], "fields.json"), js, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	if len(res.File) != 1 {
		fmt.Fprintf(os.Stderr, "%d files for one schema file\n", len(res.File))
		os.Exit(1)
	}
	for _, o := range res.File {
		if err := os.WriteFile(filepath.Join(os.Args[1], "corpus.polyglot.go"), []byte(o.GetContent()), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
}
