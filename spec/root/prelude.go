package asn1go

// Specification prelude: abstract functions and ghost state used by the contracts. Nothing of this directory is part of
// the program; it is overlaid when the program is loaded for verification or for replay.

import (
	"bufio"
	"fmt"
	goast "go/ast"
	gotoken "go/token"
	"io"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"
	"unicode"
)

var _ = bufio.NewReader
var _ = fmt.Sprint
var _ = goast.NewIdent
var _ = gotoken.NewFileSet
var _ = io.EOF
var _ = math.IsInf
var _ = strconv.Itoa
var _ = strings.Title
var _ = unicode.IsLetter
var _ = reflect.ValueOf
var _ = os.Open

// eq is equality of values: pointers are compared by what they point to, nil and empty slices are equal.
func eq(a, b interface{}) bool {
	return deepEq(reflect.ValueOf(a), reflect.ValueOf(b))
}

// size is the structural size of a value.
func size(x interface{}) int { return 0 }

// has tells whether m is in l.
func has(l []string, m string) bool {
	for _, e := range l {
		if e == m {
			return true
		}
	}
	return false
}

// hasUpto tells whether m is among the first n of l.
func hasUpto(l []string, n int, m string) bool {
	if n <= 0 {
		return false
	}
	if l[n-1] == m {
		return true
	}
	return hasUpto(l, n-1, m)
}

// nodup tells whether no string is in l twice.
func nodup(l []string) bool {
	for i := range l {
		if has(l[:i], l[i]) {
			return false
		}
	}
	return true
}

// isNilPtr tells whether the pointer x is nil.
func isNilPtr(x interface{}) bool { return reflect.ValueOf(x).IsNil() }

// trace is the list of effects outside of the program so far.
func trace() []interface{} { return nil }

// oldTrace is trace() when the function was called.
func oldTrace() []interface{} { return nil }

// ghostReader models bufio.Reader: the characters its source delivers, how many have been read, whether the last
// operation was a read that can be undone, and the error at the end.
type ghostReader struct {
	in     []rune
	pos    int
	unread bool
	fail   error
}

// ghostBuffer models bytes.Buffer and strings.Builder.
type ghostBuffer struct {
	data string
}

func rdIn(r *bufio.Reader) []rune  { return nil }
func rdPos(r *bufio.Reader) int    { return 0 }
func rdUnread(r *bufio.Reader) bool { return false }
func rdFail(r *bufio.Reader) error { return nil }

// rdChar is the number of characters in the next off bytes, -1 if these end inside of a character.
func rdChar(r *bufio.Reader, off int) int { return 0 }

// rdNeed is the number of bytes that tell which character is the k-th of the following ones.
func rdNeed(r *bufio.Reader, k int) int { return 0 }

func deepEq(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !deepEq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Interface, reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return deepEq(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !deepEq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}
