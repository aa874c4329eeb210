package utils

import (
	"reflect"
	"strconv"
	"strings"
)

// Specification prelude of this package; see spec/root/prelude.go.

var _ = reflect.DeepEqual
var _ = strconv.Itoa
var _ = strings.Split

func eq(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

func trace() []interface{}    { return nil }
func oldTrace() []interface{} { return nil }

// ghostBuffer models bytes.Buffer and strings.Builder.
type ghostBuffer struct {
	data string
}
