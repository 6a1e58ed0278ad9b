// Opens archives through generated Go code and prints everything they show.  The generated file "registry.go"
// brings the archives' Open functions and the constants.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/heremaps/flatdata/flatdata-go/flatdata"
)

type res struct{ Name, Kind, Field string }
type job struct {
	Arch, Path string
	Mem        bool
	Slices     map[string][][3]int
	Far        map[string][][3]interface{} // resource -> looks at single places
}
type input struct {
	Archs   map[string][]res    // archive (and names of subarchive members) -> resources
	Getters map[string][]string // Go type of a struct -> its getters
	Subs    map[string]string   // "arch.resource" -> archive
	Jobs    []job
}

var in input

func text(x interface{}, m string) interface{} {
	s := reflect.ValueOf(x).MethodByName(m).Call(nil)[0].String()
	if !json.Valid([]byte(s)) {
		return map[string]string{"bad": s}
	}
	return json.RawMessage(s) // members keep their order
}

func elem(x reflect.Value) interface{} {
	if x.Kind() == reflect.Interface {
		x = x.Elem()
	}
	t := x.Elem().Type().Name()
	vs := []string{}
	for _, g := range in.Getters[t] {
		r := x.MethodByName("Get" + g).Call(nil)[0]
		if r.Kind() == reflect.Bool {
			if r.Bool() {
				vs = append(vs, "1")
			} else {
				vs = append(vs, "0")
			}
		} else {
			vs = append(vs, fmt.Sprint(r.Interface()))
		}
	}
	return map[string]interface{}{"t": t, "v": vs, "text": text(x.Interface(), "ToString")}
}

func num(x reflect.Value, m string) int { return int(x.MethodByName(m).Call(nil)[0].Int()) }

func elems(v reflect.Value) []interface{} {
	out := []interface{}{}
	for i := 0; i < v.Len(); i++ {
		out = append(out, elem(v.Index(i)))
	}
	return out
}

func show(arch string, a interface{}, slices map[string][][3]int) map[string]interface{} {
	out := map[string]interface{}{}
	for _, r := range in.Archs[arch] {
		x := reflect.ValueOf(a).Elem().FieldByName(r.Field)
		o := map[string]interface{}{"open": x.Elem().FieldByName("IsOpen").Bool(), "opt": x.Elem().FieldByName("IsOptional").Bool()}
		out[r.Name] = o
		if r.Kind == "arch" {
			o["res"] = show(in.Subs[arch+"."+r.Name], x.Interface(), nil)
			o["bytes"] = num(x, "GetSizeInBytes")
			continue
		}
		if !o["open"].(bool) {
			continue
		}
		n := num(x, "GetSize")
		o["n"], o["bytes"] = n, num(x, "GetSizeInBytes")
		o["text"] = text(x.Interface(), "ToString")
		switch r.Kind {
		case "raw":
			b := x.MethodByName("GetValue").Call(nil)[0].Bytes()
			l := make([]int, len(b))
			for i, y := range b {
				l[i] = int(y)
			}
			o["raw"] = l
		case "inst":
			o["elems"] = []interface{}{elem(x.MethodByName("Get").Call(nil)[0])}
		case "vec":
			es := []interface{}{}
			for i := 0; i < n; i++ {
				es = append(es, elem(x.MethodByName("Get").Call([]reflect.Value{reflect.ValueOf(i)})[0]))
			}
			o["elems"] = es
			sl := []interface{}{}
			for _, s := range slices[r.Name] {
				sl = append(sl, elems(x.MethodByName("GetSlice").Call([]reflect.Value{reflect.ValueOf(s[0]), reflect.ValueOf(s[1]), reflect.ValueOf(s[2])})[0]))
			}
			o["slices"] = sl
		case "multi":
			items := []interface{}{}
			for i := 0; i+1 < n; i++ {
				items = append(items, elems(x.MethodByName("Get").Call([]reflect.Value{reflect.ValueOf(i)})[0]))
			}
			o["items"] = items
		}
	}
	return out
}

// values of an element only; -1 becomes the number of 64 bits with the same bits in the caller's hands
func plain(x reflect.Value) interface{} {
	if x.Kind() == reflect.Interface {
		x = x.Elem()
	}
	vs := []json.Number{}
	for _, g := range in.Getters[x.Elem().Type().Name()] {
		r := x.MethodByName("Get" + g).Call(nil)[0]
		if r.Kind() == reflect.Bool {
			if r.Bool() {
				vs = append(vs, "1")
			} else {
				vs = append(vs, "0")
			}
		} else {
			vs = append(vs, json.Number(fmt.Sprint(r.Interface())))
		}
	}
	return vs
}

func call(x reflect.Value, m string, is ...int) reflect.Value {
	args := []reflect.Value{}
	for _, i := range is {
		args = append(args, reflect.ValueOf(i))
	}
	return x.MethodByName(m).Call(args)[0]
}

func look(r res, x reflect.Value, asks [][3]interface{}) []interface{} {
	out := []interface{}{}
	for _, a := range asks {
		i, n := int(a[1].(float64)), int(a[2].(float64))
		switch a[0].(string) {
		case "size":
			out = append(out, num(x, "GetSize"))
		case "at":
			out = append(out, plain(call(x, "Get", i)))
		case "run":
			s := call(x, "GetSlice", i, i+n-1, 1)
			l := []interface{}{}
			for k := 0; k < s.Len(); k++ {
				l = append(l, plain(s.Index(k)))
			}
			out = append(out, l)
		case "item":
			s := call(x, "Get", i)
			l := []interface{}{}
			for k := 0; k < s.Len(); k++ {
				e := s.Index(k).Elem()
				l = append(l, []interface{}{e.Elem().Type().Name(), plain(e)})
			}
			out = append(out, l)
		}
	}
	return out
}

func closed(arch string, a interface{}) bool {
	for _, r := range in.Archs[arch] {
		x := reflect.ValueOf(a).Elem().FieldByName(r.Field)
		if r.Kind == "arch" {
			if !closed(in.Subs[arch+"."+r.Name], x.Interface()) {
				return false
			}
		} else if x.Elem().FieldByName("IsOpen").Bool() {
			return false
		}
	}
	return true
}

func storage(j job) flatdata.ResourceStorage {
	if !j.Mem {
		return flatdata.NewFileResourceStorage(filepath.Join(j.Path, j.Arch+".archive"))
	}
	s := &flatdata.InMemoryResourceStorage{Descriptors: map[string]flatdata.MemoryDescriptor{}, Schemas: map[string]string{}}
	fs, _ := os.ReadDir(j.Path)
	for _, f := range fs {
		b, _ := os.ReadFile(filepath.Join(j.Path, f.Name()))
		if strings.HasSuffix(f.Name(), ".schema") {
			s.Schemas[strings.TrimSuffix(f.Name(), ".schema")] = string(b)
		} else {
			s.Descriptors[f.Name()] = &flatdata.TestMemoryDescriptor{Array: b}
		}
	}
	return s
}

func whole(a interface{}) (out interface{}) {
	defer func() {
		if e := recover(); e != nil {
			out = map[string]string{"panic": fmt.Sprint(e)}
		}
	}()
	return text(a, "ToString")
}

func run(j job) (out map[string]interface{}) {
	out = map[string]interface{}{}
	defer func() {
		if e := recover(); e != nil {
			out = map[string]interface{}{"panic": fmt.Sprint(e)}
		}
	}()
	a, err := open(j.Arch, storage(j))
	out["err"] = ""
	if err != nil {
		out["err"] = err.Error()
		return
	}
	if j.Far != nil {
		far := map[string]interface{}{}
		for _, r := range in.Archs[j.Arch] {
			far[r.Name] = look(r, reflect.ValueOf(a).Elem().FieldByName(r.Field), j.Far[r.Name])
		}
		out["far"] = far
		return
	}
	out["res"] = show(j.Arch, a, j.Slices)
	out["bytes"] = num(reflect.ValueOf(a), "GetSizeInBytes")
	out["text"] = whole(a)
	reflect.ValueOf(a).MethodByName("Close").Call(nil)
	out["closed"] = closed(j.Arch, a)
	return
}

func main() {
	log.SetOutput(io.Discard)
	d := json.NewDecoder(os.Stdin)
	if err := d.Decode(&in); err != nil {
		panic(err)
	}
	outs := []interface{}{}
	for _, j := range in.Jobs {
		outs = append(outs, run(j))
	}
	json.NewEncoder(os.Stdout).Encode(map[string]interface{}{"jobs": outs, "consts": consts})
}
