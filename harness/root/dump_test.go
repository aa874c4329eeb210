package asn1go

import (
	"fmt"
	"reflect"
	"strings"
)

// vDump prints a value with what its pointers point to.
func vDump(x interface{}, depth int) string {
	return vDumpV(reflect.ValueOf(x), depth)
}

func vDumpV(v reflect.Value, depth int) string {
	if !v.IsValid() {
		return "nil"
	}
	if depth > 60 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return vDumpV(v.Elem(), depth+1)
	case reflect.Slice:
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, vDumpV(v.Index(i), depth+1))
		}
		return v.Type().Name() + "[" + strings.Join(l, " ") + "]"
	case reflect.Struct:
		var l []string
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.IsZero() || f.Kind() == reflect.Slice && f.Len() == 0 {
				continue
			}
			l = append(l, v.Type().Field(i).Name+":"+vDumpV(f, depth+1))
		}
		return v.Type().Name() + "{" + strings.Join(l, " ") + "}"
	case reflect.String:
		return fmt.Sprintf("%s%q", v.Type().Name(), v.String())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int64:
		return fmt.Sprintf("%s(%d)", v.Type().Name(), v.Int())
	case reflect.Float64:
		return fmt.Sprintf("%s(%g)", v.Type().Name(), v.Float())
	}
	return v.String()
}
