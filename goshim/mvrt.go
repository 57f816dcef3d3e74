// Package mvrt runs generated Go code by requests given as lines of JSON.
package mvrt

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
	"time"
)

// Err is an error of parsing.
type Err struct {
	Ref     string
	Message string
}

// Result gives what the errors container told.
type Result struct {
	Errs        []Err
	Full, Empty bool
}

// Case is the generated code of a schema.
type Case struct {
	New   func() interface{}
	Read  func(value interface{}, ref string, target interface{}, cap uint64) Result
	Write func(instance interface{}) (map[string]interface{}, error)
	// structures by the names of composites
	Structs map[string]reflect.Type
	// names of the classes and the fields of the registries in the order of the schema
	Classes    []string
	Registries []string
	Contract   func(value interface{}, which string) Result
}

var cases = map[int]*Case{}

// Register registers the code.
func Register(number int, c *Case) { cases[number] = c }

var timeType = reflect.TypeOf(time.Time{})
var zoneType = reflect.TypeOf(&time.Location{})
var durationType = reflect.TypeOf(time.Duration(0))

func quote(out *bytes.Buffer, text string) {
	out.WriteByte('"')
	for i := 0; i < len(text); i++ {
		b := text[i]
		switch {
		case b == '"' || b == '\\':
			out.WriteByte('\\')
			out.WriteByte(b)
		case b < 32:
			fmt.Fprintf(out, "\\u%04x", b)
		default:
			out.WriteByte(b)
		}
	}
	out.WriteByte('"')
}

type dumper struct {
	c       *Case
	graph   reflect.Value
	classes map[reflect.Type]int
}

func newDumper(c *Case, graph interface{}) *dumper {
	d := &dumper{c: c, graph: reflect.ValueOf(graph).Elem(), classes: map[reflect.Type]int{}}
	for i, name := range c.Classes {
		d.classes[c.Structs[name]] = i
	}
	return d
}

func (d *dumper) structure(out *bytes.Buffer, v reflect.Value, skip map[string]bool) {
	out.WriteByte('{')
	first := true
	for i := 0; i < v.NumField(); i++ {
		name := v.Type().Field(i).Name
		if skip[name] {
			continue
		}
		if !first {
			out.WriteByte(',')
		}
		first = false
		quote(out, name)
		out.WriteByte(':')
		d.value(out, v.Field(i))
	}
	out.WriteByte('}')
}

func (d *dumper) value(out *bytes.Buffer, v reflect.Value) {
	t := v.Type()
	if t == zoneType {
		if v.IsNil() {
			out.WriteString("null")
		} else {
			quote(out, v.Interface().(*time.Location).String())
		}
		return
	}
	if t == timeType {
		m := v.Interface().(time.Time)
		_, offset := m.Zone()
		fmt.Fprintf(out, "{\"time\":[%d,%d,%d,%d,%d,%d,%d,%d]}", m.Year(), int(m.Month()), m.Day(),
			m.Hour(), m.Minute(), m.Second(), m.Nanosecond(), offset)
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			out.WriteString("null")
			return
		}
		if i, ok := d.classes[t.Elem()]; ok {
			id := v.Elem().FieldByName("ID").String()
			out.WriteString("{\"$id\":")
			quote(out, id)
			registered := d.graph.FieldByName(d.c.Registries[i]).MapIndex(reflect.ValueOf(id))
			if !registered.IsValid() || registered.Pointer() != v.Pointer() {
				out.WriteString(",\"$foreign\":true")
			}
			out.WriteByte('}')
			return
		}
		d.value(out, v.Elem())
	case reflect.Struct:
		d.structure(out, v, nil)
	case reflect.Bool:
		fmt.Fprintf(out, "%v", v.Bool())
	case reflect.Int64:
		fmt.Fprintf(out, "%d", v.Int())
	case reflect.Float64:
		quote(out, strconv.FormatFloat(v.Float(), 'x', -1, 64))
	case reflect.String:
		quote(out, v.String())
	case reflect.Slice:
		if v.IsNil() {
			out.WriteString("null")
			return
		}
		out.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				out.WriteByte(',')
			}
			d.value(out, v.Index(i))
		}
		out.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			out.WriteString("null")
			return
		}
		out.WriteByte('{')
		for i, key := range sorted(v) {
			if i > 0 {
				out.WriteByte(',')
			}
			quote(out, key)
			out.WriteByte(':')
			d.value(out, v.MapIndex(reflect.ValueOf(key)))
		}
		out.WriteByte('}')
	default:
		out.WriteString("{\"$type\":")
		quote(out, t.String())
		out.WriteByte('}')
	}
}

func sorted(v reflect.Value) []string {
	keys := make([]string, 0, v.Len())
	for _, key := range v.MapKeys() {
		keys = append(keys, key.String())
	}
	sort.Strings(keys)
	return keys
}

func (d *dumper) content(out *bytes.Buffer) {
	out.WriteString("{\"registries\":{")
	skip := map[string]bool{}
	for i, name := range d.c.Classes {
		skip[d.c.Registries[i]] = true
		if i > 0 {
			out.WriteByte(',')
		}
		quote(out, name)
		out.WriteString(":{")
		registry := d.graph.FieldByName(d.c.Registries[i])
		for j, key := range sorted(registry) {
			if j > 0 {
				out.WriteByte(',')
			}
			quote(out, key)
			out.WriteByte(':')
			instance := registry.MapIndex(reflect.ValueOf(key))
			if instance.IsNil() {
				out.WriteString("null")
				continue
			}
			out.WriteString("{\"id\":")
			quote(out, instance.Elem().FieldByName("ID").String())
			out.WriteString(",\"props\":")
			d.structure(out, instance.Elem(), map[string]bool{"ID": true})
			out.WriteByte('}')
		}
		out.WriteByte('}')
	}
	out.WriteString("},\"properties\":")
	d.structure(out, d.graph, skip)
	out.WriteByte('}')
}

// write the JSON-able value keeping the types of numbers
func write(out *bytes.Buffer, value interface{}) {
	switch v := value.(type) {
	case bool:
		fmt.Fprintf(out, "%v", v)
	case int64:
		fmt.Fprintf(out, "%d", v)
	case float64:
		text := strconv.FormatFloat(v, 'g', -1, 64)
		if !bytes.ContainsAny([]byte(text), ".eE") {
			text += ".0"
		}
		out.WriteString(text)
	case string:
		quote(out, v)
	case []interface{}:
		out.WriteByte('[')
		for i, item := range v {
			if i > 0 {
				out.WriteByte(',')
			}
			write(out, item)
		}
		out.WriteByte(']')
	case map[string]interface{}:
		keys := make([]string, 0, len(v))
		for key := range v {
			keys = append(keys, key)
		}
		sort.Strings(keys)
		out.WriteByte('{')
		for i, key := range keys {
			if i > 0 {
				out.WriteByte(',')
			}
			quote(out, key)
			out.WriteByte(':')
			write(out, v[key])
		}
		out.WriteByte('}')
	default:
		out.WriteString("{\"$type\":")
		quote(out, fmt.Sprintf("%T", value))
		out.WriteByte('}')
	}
}

type request struct {
	Case    int
	Op      string
	Doc     json.RawMessage
	Ref     string
	Cap     uint64
	Write   bool
	Times   int
	Foreign []interface{}
}

func writeErrs(out *bytes.Buffer, errs []Err) {
	out.WriteByte('[')
	for i, err := range errs {
		if i > 0 {
			out.WriteByte(',')
		}
		out.WriteByte('[')
		quote(out, err.Ref)
		out.WriteByte(',')
		quote(out, err.Message)
		out.WriteByte(']')
	}
	out.WriteByte(']')
}

func types(out *bytes.Buffer, c *Case) {
	out.WriteString("{\"structs\":{")
	names := make([]string, 0)
	for name := range c.Structs {
		names = append(names, name)
	}
	sort.Strings(names)
	for i, name := range names {
		if i > 0 {
			out.WriteByte(',')
		}
		quote(out, name)
		out.WriteString(":[")
		t := c.Structs[name]
		for j := 0; j < t.NumField(); j++ {
			if j > 0 {
				out.WriteByte(',')
			}
			out.WriteByte('[')
			quote(out, t.Field(j).Name)
			out.WriteByte(',')
			quote(out, t.Field(j).Type.String())
			out.WriteByte(']')
		}
		out.WriteByte(']')
	}
	out.WriteString("}}")
}

func (r *request) foreign(c *Case, graph interface{}) bool {
	which := int(r.Foreign[0].(float64))
	index := int(r.Foreign[1].(float64))
	move := r.Foreign[2].(bool)
	suffix := r.Foreign[3].(string)
	registry := reflect.ValueOf(graph).Elem().FieldByName(c.Registries[which])
	keys := sorted(registry)
	if len(keys) == 0 {
		return false
	}
	key := keys[index%len(keys)]
	instance := registry.MapIndex(reflect.ValueOf(key))
	if move {
		other := reflect.ValueOf(key + suffix)
		if registry.MapIndex(other).IsValid() {
			return false
		}
		registry.SetMapIndex(reflect.ValueOf(key), reflect.Value{})
		registry.SetMapIndex(other, instance)
	} else {
		id := instance.Elem().FieldByName("ID")
		id.SetString(id.String() + suffix)
	}
	return true
}

func (r *request) run(out *bytes.Buffer) {
	stage := "decode"
	start := out.Len()
	defer func() {
		if got := recover(); got != nil {
			out.Truncate(start)
			out.WriteString("{\"threw\":\"panic\",\"stage\":")
			quote(out, stage)
			out.WriteString(",\"what\":")
			quote(out, fmt.Sprint(got))
			out.WriteByte('}')
		}
	}()
	c := cases[r.Case]
	if c == nil {
		out.WriteString("{\"unknown\":true}")
		return
	}
	if r.Op == "types" {
		types(out, c)
		return
	}
	var doc interface{}
	if err := json.Unmarshal(r.Doc, &doc); err != nil {
		out.WriteString("{\"undecodable\":true}")
		return
	}
	if r.Op == "contract" {
		out.WriteByte('{')
		for i, which := range []string{"null", "filled", "target"} {
			if i > 0 {
				out.WriteByte(',')
			}
			quote(out, which)
			out.WriteByte(':')
			func() {
				defer func() {
					if got := recover(); got != nil {
						out.WriteString("\"panic\"")
					}
				}()
				c.Contract(doc, which)
				out.WriteString("\"accepted\"")
			}()
		}
		out.WriteByte('}')
		return
	}
	if r.Op == "pure" {
		out.WriteString("{\"problems\":[")
		for i, problem := range r.pure(c, doc) {
			if i > 0 {
				out.WriteByte(',')
			}
			quote(out, problem)
		}
		out.WriteString("]}")
		return
	}
	stage = "parse"
	graph := c.New()
	result := c.Read(doc, r.Ref, graph, r.Cap)
	fmt.Fprintf(out, "{\"empty\":%v,\"full\":%v,\"errors\":", result.Empty, result.Full)
	writeErrs(out, result.Errs)
	if len(result.Errs) == 0 {
		out.WriteString(",\"content\":")
		newDumper(c, graph).content(out)
		if r.Write {
			stage = "serialize"
			written, err := c.Write(graph)
			if err != nil {
				out.WriteString(",\"refused\":")
				quote(out, err.Error())
			} else {
				out.WriteString(",\"written\":")
				write(out, written)
				text, err := json.Marshal(written)
				if err != nil {
					out.WriteString(",\"unmarshalable\":")
					quote(out, err.Error())
				} else {
					var again interface{}
					if err := json.Unmarshal(text, &again); err != nil {
						panic(err)
					}
					stage = "parse again"
					graph2 := c.New()
					result2 := c.Read(again, r.Ref, graph2, 1000)
					out.WriteString(",\"errors2\":")
					writeErrs(out, result2.Errs)
					if len(result2.Errs) == 0 {
						out.WriteString(",\"content2\":")
						newDumper(c, graph2).content(out)
					}
				}
			}
		}
		if len(r.Foreign) > 0 && r.foreign(c, graph) {
			stage = "serialize foreign"
			out.WriteString(",\"foreign\":")
			written, err := c.Write(graph)
			if err != nil {
				if written != nil {
					out.WriteString("\"error with a document\"")
				} else {
					out.WriteString("\"refused\"")
				}
			} else {
				write(out, written)
			}
		}
	}
	out.WriteByte('}')
}

// scramble overwrites all the parts of a document in place, whatever their types are.
func scramble(value interface{}) {
	if value != nil {
		scrambleValue(reflect.ValueOf(value))
	}
}

func scrambleValue(value reflect.Value) {
	switch value.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !value.IsNil() {
			scrambleValue(value.Elem())
		}
	case reflect.Map:
		for _, key := range value.MapKeys() {
			scrambleValue(value.MapIndex(key))
			value.SetMapIndex(key, reflect.Value{})
		}
		if !value.IsNil() && value.Type().Key().Kind() == reflect.String {
			item := reflect.Zero(value.Type().Elem())
			if item.Kind() == reflect.Interface {
				item = reflect.ValueOf("scrambled")
			}
			value.SetMapIndex(
				reflect.ValueOf("scrambled").Convert(value.Type().Key()), item)
		}
	case reflect.Slice:
		for i := 0; i < value.Len(); i++ {
			item := value.Index(i)
			scrambleValue(item)
			if item.Kind() == reflect.Interface {
				item.Set(reflect.ValueOf("scrambled"))
			} else {
				item.Set(reflect.Zero(item.Type()))
			}
		}
	}
}

const knownPanic = "unexpected non-empty errors"

// outcome is what came of parsing a document and writing the graph.
type outcome struct {
	refs, content, written, panicked string
	graph                            interface{}
}

func (r *request) once(c *Case, doc interface{}) (got outcome) {
	defer func() {
		if what := recover(); what != nil {
			got.panicked = fmt.Sprint(what)
		}
	}()
	graph := c.New()
	result := c.Read(doc, r.Ref, graph, r.Cap)
	refs := make([]string, 0)
	for _, err := range result.Errs {
		refs = append(refs, err.Ref)
	}
	sort.Strings(refs)
	got.refs = fmt.Sprintf("%q", refs)
	if len(result.Errs) == 0 {
		got.graph = graph
		got.content = contentOf(c, graph)
		got.written = writtenOf(c, graph, nil)
	}
	return
}

func contentOf(c *Case, graph interface{}) string {
	var out bytes.Buffer
	newDumper(c, graph).content(&out)
	return out.String()
}

func writtenOf(c *Case, graph interface{}, target *map[string]interface{}) string {
	written, err := c.Write(graph)
	if err != nil {
		return "refused: " + err.Error()
	}
	if target != nil {
		*target = written
	}
	text, err := json.Marshal(written)
	if err != nil {
		return "not JSON: " + err.Error()
	}
	return string(text)
}

// pure looks for side effects of parsing and writing.
func (r *request) pure(c *Case, doc interface{}) (problems []string) {
	complain := func(format string, args ...interface{}) {
		problems = append(problems, fmt.Sprintf(format, args...))
	}
	text := func() string {
		var out bytes.Buffer
		write(&out, doc)
		return out.String()
	}
	before := text()
	first := r.once(c, doc)
	if text() != before {
		complain("the document was changed by parsing")
	}
	var others [4]outcome
	done := make(chan bool)
	for i := range others {
		go func(i int) {
			others[i] = r.once(c, doc)
			done <- true
		}(i)
	}
	for range others {
		<-done
	}
	if first.panicked != "" {
		return
	}
	for i := range others {
		other := others[i]
		if first.graph == nil && other.panicked == knownPanic {
			// whether it panics depends on the order of maps; see the known findings
			continue
		}
		if other.panicked != first.panicked || other.refs != first.refs ||
			other.content != first.content || other.written != first.written {
			complain("another outcome at the same time: %v in place of %v", other, first)
			return
		}
	}
	if first.graph == nil {
		return
	}
	if got := contentOf(c, first.graph); got != first.content {
		complain("the graph was changed by serializing it: %s in place of %s", got, first.content)
	}
	var one, two map[string]interface{}
	writtenOf(c, first.graph, &one)
	writtenOf(c, first.graph, &two)
	scramble(one)
	if got := contentOf(c, first.graph); got != first.content {
		complain("the graph shares a part with the serialized document: %s in place of %s", got, first.content)
	}
	if len(two) > 0 || len(one) > 1 {
		if rest, err := json.Marshal(two); err != nil || string(rest) != first.written {
			complain("the serialized documents share a part: %s in place of %s", rest, first.written)
		}
	}
	scramble(doc)
	if got := contentOf(c, first.graph); got != first.content {
		complain("the graph shares a part with the document: %s in place of %s", got, first.content)
	}
	return
}

// Main serves the requests.
func Main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 0 {
			var r request
			var out bytes.Buffer
			if err := json.Unmarshal(line, &r); err != nil {
				out.WriteString("{\"unknown\":true}")
			} else {
				r.run(&out)
			}
			out.WriteByte('\n')
			os.Stdout.Write(out.Bytes())
		}
		if err != nil {
			return
		}
	}
}
