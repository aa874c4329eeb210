package main

import (
	"os"
	"reflect"
)

// Specification prelude of this package; see spec/root/prelude.go.

var _ = reflect.DeepEqual
var _ = os.Exit

func eq(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

func trace() []interface{}    { return nil }
func oldTrace() []interface{} { return nil }

// ghostBuffer models bytes.Buffer and strings.Builder.
type ghostBuffer struct {
	data string
}

// printedText is what go/printer prints for a file.
func printedText(file interface{}) string { return "" }
