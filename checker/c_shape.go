package main

// What Kafka defines on the wire, and what the Go types say.

import (
	"fmt"
	"go/types"
	"strings"
)

// apiSpec: request and response layouts by key and version.
// i8 i16 i32 i64 bool; s string, n nullable string, b bytes, B nullable bytes,
// [..] array, M message set (size in bytes, then messages).
var apiSpec = map[apiSlot][2]string{
	{3, 1}:  {"[s]", "[i32 s i32 n] i32 [i16 s bool [i16 i32 i32 [i32] [i32]]]"},
	{10, 0}: {"s", "i16 i32 s i32"},
	{9, 1}:  {"s [s [i32]]", "[s [i32 i64 n i16]]"},
	{11, 1}: {"s i32 i32 s s [s b]", "i16 i32 s s s [s b]"},
	{14, 0}: {"s i32 s [s b]", "i16 b"},
	{13, 0}: {"s s", "i16"},
	{18, 0}: {"", "i16 [i16 i16 i16]"},
	{12, 0}: {"s i32 s", "i16"},
	{2, 1}:  {"i32 [s [i32 i64]]", "[s [i32 i16 i64 i64]]"},
	{1, 2}:  {"i32 i32 i32 [s [i32 i64 i32]]", "i32 [s [i32 i16 i64 M]]"},
	{8, 2}:  {"s i32 s i64 [s [i32 i64 n]]", "[s [i32 i16]]"},
	{1, 0}:  {"i32 i32 i32 [s [i32 i64 i32]]", "[s [i32 i16 i64 M]]"},
	{1, 1}:  {"i32 i32 i32 [s [i32 i64 i32]]", "i32 [s [i32 i16 i64 M]]"},
	{2, 0}:  {"i32 [s [i32 i64 i32]]", "[s [i32 i16 [i64]]]"},
	{3, 0}:  {"[s]", "[i32 s i32] [i16 s [i16 i32 i32 [i32] [i32]]]"},
	{3, 2}:  {"[s]", "[i32 s i32 n] n i32 [i16 s bool [i16 i32 i32 [i32] [i32]]]"},
	{8, 0}:  {"s [s [i32 i64 n]]", "[s [i32 i16]]"},
	{8, 1}:  {"s i32 s [s [i32 i64 i64 n]]", "[s [i32 i16]]"},
	{9, 0}:  {"s [s [i32]]", "[s [i32 i64 n i16]]"},
	{9, 2}:  {"s [s [i32]]", "[s [i32 i64 n i16]] i16"},
	{10, 1}: {"s i8", "i32 i16 n i32 s i32"},
	{11, 0}: {"s i32 s s [s b]", "i16 i32 s s s [s b]"},
	{11, 2}: {"s i32 i32 s s [s b]", "i32 i16 i32 s s s [s b]"},
	{12, 1}: {"s i32 s", "i32 i16"},
	{13, 1}: {"s s", "i32 i16"},
	{14, 1}: {"s i32 s [s b]", "i32 i16 b"},
	{18, 1}: {"", "i16 [i16 i16 i16] i32"},
	{18, 2}: {"", "i16 [i16 i16 i16] i32"},
}

const (
	headerSpec = "i16 i16 i32"
	// a null key or value is -1, as in every byte string
	messageSpec    = "i64 i32 i32 i8 i8 i64 b b"
	assignmentSpec = "i16 [s [i32]] b"
)

// shapeOf: the layout a Go type stands for, by the codec's conventions (which
// C05 decides for the codec itself).
func shapeOf(T types.Type, d int) string {
	if d > 8 {
		return "?"
	}
	if n := namedOf(T); n != nil {
		switch n.Obj().Name() {
		case "NullableString":
			return "n"
		case "NullableBytes":
			return "B"
		}
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return "bool"
		case types.Int8:
			return "i8"
		case types.Int16:
			return "i16"
		case types.Int32:
			return "i32"
		case types.Int64:
			return "i64"
		case types.String:
			return "s"
		}
		return "?" + u.String()
	case *types.Pointer:
		return shapeOf(u.Elem(), d+1)
	case *types.Slice:
		if isByteSlice(u) {
			return "b"
		}
		return "[" + shapeOf(u.Elem(), d+1) + "]"
	case *types.Struct:
		if n := namedOf(T); n != nil && isMessageSet(T) {
			return "M"
		}
		var out []string
		for i := 0; i < u.NumFields(); i++ {
			if x := shapeOf(u.Field(i).Type(), d+1); x != "" {
				out = append(out, x)
			}
		}
		return strings.Join(out, " ")
	}
	return "?" + typeKey(T)
}

// isMessageSet: the type that stands for a fetched message set.
func isMessageSet(T types.Type) bool {
	n := namedOf(T)
	return n != nil && strings.HasPrefix(n.Obj().Name(), "messageSet")
}

// decodedTypes: the request type a handler reads on the ways it can succeed.
func (r *Report) checkShape(as *apiSetup, sl apiSlot) {
	fn := as.fns[sl]
	w := shortFn(fn)
	spec, ok := apiSpec[sl]
	if !ok {
		r.fail("shape", w, fmt.Sprintf("undecided: no layout known for key %d version %d", sl.key, sl.ver))
		return
	}
	e := r.run(&RootCfg{Name: shortFn(fn), Fn: fn})
	what := fmt.Sprintf("key %d version %d", sl.key, sl.ver)
	n := 0
	for _, pe := range e.ends {
		if pe.Kind != "return" || pe.Label != "" || len(pe.Res) != 3 {
			continue
		}
		if !pe.Res[2].isNil() {
			continue
		}
		n++
		req, nreq := "", 0
		for _, ev := range pe.Evs {
			if ev.Kind == "decode" && ev.Name == "ok" && len(ev.Args) > 2 {
				nreq++
				if T := rtypeOf(ev.Args[2]); T != nil {
					req += " " + shapeOf(T, 0)
				} else {
					req += " ?"
				}
			}
		}
		r.check(strings.TrimSpace(req) == spec[0], "shape", w, "reads the request of "+what, "reads: "+req, "Kafka: "+spec[0])
		T := ifaceType(pe.Res[0])
		if T == nil {
			r.fail("shape", w, "undecided: type of the response to "+what, str(pe.Res[0]))
			continue
		}
		got := shapeOf(T, 0)
		r.check(got == spec[1], "shape", w, "answers with the response of "+what, "answers: "+got, "Kafka: "+spec[1])
	}
	r.check(n > 0, "shape", w, "answers "+what+" on some path")
}
