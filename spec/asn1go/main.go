package main

import (
	"flag"
	"os"
	"strings"

	"github.com/chemikadze/asn1go"
)

// specArgs is what the command line asks for: input and output, package and integer representation, and the number of
// arguments, or why that is not known.
func specArgs(args []string) (in, out, pkg, repr string, n int, err error) {
	cmd := flag.NewFlagSet(args[0], flag.ContinueOnError)
	cmd.StringVar(&pkg, "package", "", "")
	cmd.StringVar(&repr, "default-integer-repr", "int64", "")
	err = cmd.Parse(args[1:])
	n = cmd.NArg()
	if n > 0 {
		in = cmd.Arg(0)
	}
	if n > 1 {
		out = cmd.Arg(1)
	}
	return
}

// specClosed skips the closing of a file in the effects t.
func specClosed(t []interface{}, i int) int {
	if len(t) > i+2 && eq(t[i], "(*os.File).Close") {
		return i + 3
	}
	return i
}

// specFailed tells whether the effects t from i on are the report of err on standard error and a failing exit.
func specFailed(t []interface{}, i int, err interface{}) bool {
	j := specClosed(t, i)
	if len(t) != j+5 || !eq(t[j], "write") || !eq(t[j+1], os.Stderr) || !eq(t[j+3], "os.Exit") || eq(t[j+4], 0) {
		return false
	}
	if err == nil {
		return true
	}
	return strings.Contains(t[j+2].(string), err.(error).Error())
}

// specRun tells whether the effects t are those of a run of the command with the arguments args, which ended by returning
// from main or, if exited, by leaving the program.
func specRun(t []interface{}, args []string, exited bool, mods []string) bool {
	in, out, pkg, repr, n, err := specArgs(args)
	if err == flag.ErrHelp {
		return exited && len(t) == 5 && eq(t[0], "write") && eq(t[1], os.Stderr) && eq(t[3], "os.Exit")
	}
	if n > 2 || err != nil {
		return exited && specFailed(t, 0, nil)
	}
	if in == "" {
		return specParsed(t, 0, os.Stdin, out, asn1go.GenParams{Package: pkg, IntegerRepr: asn1go.IntegerRepr(repr)}, exited, mods)
	}
	if len(t) < 4 || !eq(t[0], "os.Open") || !eq(t[1], in) {
		return false
	}
	if t[3] != nil {
		return exited && specFailed(t, 4, t[3])
	}
	return specParsed(t, 4, t[2].(*os.File), out, asn1go.GenParams{Package: pkg, IntegerRepr: asn1go.IntegerRepr(repr)}, exited, mods)
}

// specParsed continues when the input is open.
func specParsed(t []interface{}, i int, input *os.File, out string, params asn1go.GenParams, exited bool, mods []string) bool {
	if err := asn1go.VerifError(input); err != nil {
		return exited && specFailed(t, i, err)
	}
	i = specClosed(t, i)
	module := asn1go.VerifModule(input)
	if asn1go.VerifBad(params, *module) {
		return exited && specFailed(t, i, nil)
	}
	if len(t) < i+4 || !eq(t[i], "print") || !asn1go.VerifFile(params, *module, mods, t[i+2]) {
		return false
	}
	if t[i+3] != nil {
		return exited && specFailed(t, i+4, t[i+3])
	}
	data := []byte(printedText(t[i+2]))
	i += 4
	if out == "" {
		return specWritten(t, i, os.Stdout, data, exited, input)
	}
	// output is opened and emptied
	if len(t) < i+6 || !eq(t[i], "os.OpenFile") || !eq(t[i+1], out) || t[i+2].(int)&^os.O_TRUNC&^3 != os.O_CREATE || t[i+2].(int)&3 == os.O_RDONLY {
		return false
	}
	if t[i+5] != nil {
		return exited && specFailed(t, i+6, t[i+5])
	}
	f := t[i+4].(*os.File)
	if t[i+2].(int)&os.O_TRUNC != 0 {
		return specWritten(t, i+6, f, data, exited, input)
	}
	i += 6
	if len(t) < i+4 || !eq(t[i], "(*os.File).Truncate") || !eq(t[i+1], f) || !eq(t[i+2], int64(0)) {
		return false
	}
	if t[i+3] != nil {
		return exited && specFailed(t, i+4, t[i+3])
	}
	return specWritten(t, i+4, f, data, exited, input)
}

// specWritten continues when the output is open.
func specWritten(t []interface{}, i int, f *os.File, data []byte, exited bool, input *os.File) bool {
	if len(t) < i+5 || !eq(t[i], "(*os.File).Write") || !eq(t[i+1], f) || !eq(t[i+2], data) {
		return false
	}
	if t[i+4] != nil {
		return exited && specFailed(t, i+5, t[i+4])
	}
	i += 5
	if len(t) < i+3 || !eq(t[i], "(*os.File).Close") || !eq(t[i+1], f) {
		return false
	}
	if t[i+2] != nil {
		return exited && specFailed(t, i+3, t[i+2])
	}
	if len(t) == i+6 { // the input may be closed last
		return !exited && eq(t[i+3], "(*os.File).Close") && eq(t[i+4], input)
	}
	return !exited && len(t) == i+3
}

//@ func main()
//@ props C18
//@ effects
//@ requires program: len(os.Args) > 0
//@ exits [C18] failed: exists mods []string :: specRun(trace()[len(oldTrace()):], os.Args, true, mods)
//@ ensures [C18] done: exists mods []string :: specRun(trace()[len(oldTrace()):], os.Args, false, mods)
