package main

import (
	"bytes"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/chemikadze/asn1go"
)

func init() {
	vProps["C18"] = replayCommand
}

type vRun struct {
	text   string // the module
	pkg    string
	repr   string
	named  bool   // input by name
	output string // "", new, existing, missing, directory, full, same
	before string // content of the existing output
}

func (r vRun) String() string {
	return fmt.Sprintf("package %q, integers %q, input by name %v, output %q (holding %d bytes), module %q", r.pkg, r.repr, r.named, r.output, len(r.before), r.text)
}

// vExpect is what the library makes of the module.
func vExpect(r vRun) (code string, err error) {
	m, err := asn1go.ParseString(r.text)
	if err != nil {
		return "", err
	}
	repr := r.repr
	if repr == "" {
		repr = "int64"
	}
	var b bytes.Buffer
	err = asn1go.NewCodeGenerator(asn1go.GenParams{Package: r.pkg, IntegerRepr: asn1go.IntegerRepr(repr)}).Generate(*m, &b)
	return b.String(), err
}

func vExec(dir string, stdin *string, args ...string) (out, errText string, err error) {
	c := exec.Command(os.Getenv("VERIF_BIN_ASN1GO"), args...)
	c.Dir = dir
	if stdin != nil {
		c.Stdin = strings.NewReader(*stdin)
	}
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err = c.Run()
	return o.String(), e.String(), err
}

func (r vRun) check(scratch string) string {
	dir, err := os.MkdirTemp(scratch, "c18")
	if err != nil {
		return ""
	}
	defer os.RemoveAll(dir)
	want, werr := vExpect(r)
	var args []string
	if r.pkg != "" {
		args = append(args, "-package", r.pkg)
	}
	if r.repr != "" {
		args = append(args, "-default-integer-repr", r.repr)
	}
	var stdin *string
	in := filepath.Join(dir, "in.asn1")
	if r.named || r.output != "" {
		os.WriteFile(in, []byte(r.text), 0600)
		args = append(args, in)
	} else {
		stdin = &r.text
	}
	out := filepath.Join(dir, "out.go")
	unwritable := false
	switch r.output {
	case "existing":
		os.WriteFile(out, []byte(r.before), 0600)
	case "missing":
		out = filepath.Join(dir, "no", "out.go")
		unwritable = true
	case "directory":
		os.Mkdir(out, 0700)
		unwritable = true
	case "full":
		out = "/dev/full"
		unwritable = true
	case "same":
		out = in
	}
	if r.output != "" {
		args = append(args, out)
	}
	stdout, stderr, rerr := vExec(dir, stdin, args...)
	fails := werr != nil || unwritable
	if fails != (rerr != nil) {
		return fmt.Sprintf("ends with %v (%s), the library says %v", rerr, stderr, werr)
	}
	if fails && strings.TrimSpace(stderr) == "" {
		return "fails without a message"
	}
	if werr != nil && !strings.Contains(stderr, werr.Error()) {
		return fmt.Sprintf("prints %q, the error is %q", stderr, werr)
	}
	if r.output != "" && stdout != "" || r.output == "" && (fails && stdout != "" || !fails && stdout != want) {
		return fmt.Sprintf("standard output is %q, should be %q", stdout, want)
	}
	var left []byte
	var lerr error
	if r.output != "" && r.output != "full" {
		left, lerr = os.ReadFile(out)
	}
	switch {
	case r.output == "" || r.output == "full":
	case r.output == "existing" && fails && string(left) != r.before:
		return fmt.Sprintf("the output file held %q and after the failure %q", r.before, left)
	case r.output == "same" && fails && string(left) != r.text:
		return fmt.Sprintf("the output file held the module and after the failure %q", left)
	case !fails && (lerr != nil || string(left) != want):
		return fmt.Sprintf("the output file is %q (%v), should be %q", left, lerr, want)
	}
	if r.output != "same" && (r.named || r.output != "") {
		if b, _ := os.ReadFile(in); string(b) != r.text {
			return "the input file has changed"
		}
	}
	return ""
}

func replayCommand(h *vh) {
	h.rep.Rule = "modules that parse and generate, parse only and do not parse, with every kind of input and output, package name and integer representation; bad usage; run with the built command in a scratch directory; non-trivial always"
	scratch := os.Getenv("VERIF_SCRATCH")
	if os.Getenv("VERIF_BIN_ASN1GO") == "" {
		return
	}
	texts := []string{
		"M DEFINITIONS ::= BEGIN END",
		"M DEFINITIONS ::= BEGIN A ::= INTEGER END",
		"My-Module DEFINITIONS ::= BEGIN A ::= SEQUENCE { x INTEGER OPTIONAL, y [1] IA5String, t GeneralizedTime } B ::= SET OF A v INTEGER ::= 5 r REAL ::= 3.5e3 I ::= INTEGER { one(1), two(2) } END",
		"M DEFINITIONS ::= BEGIN A ::= NULL END",
		"M DEFINITIONS AUTOMATIC TAGS ::= BEGIN A ::= INTEGER END",
		"M DEFINITIONS ::= BEGIN A ::= Missing B ::= A END",
		"M DEFINITIONS ::= BEGIN A ::= B B ::= A END",
		"M DEFINITIONS ::= BEGIN A ::= SEQUENCE { x NULL, y Nothing } END",
		"", " \n", "M DEFINITIONS ::= BEGIN", "M DEFINITIONS ::= BEGIN A ::= %s %d 100% END", "\n\n%!v(MISSING) @", "M DEFINITIONS ::= BEGIN A ::= INTEGER END x",
		"M DEFINITIONS ::= BEGIN " + strings.Repeat("A ::= SEQUENCE { x INTEGER, y BOOLEAN } ", 3000) + "END",
	}
	dir, _ := os.MkdirTemp(scratch, "c18u")
	defer os.RemoveAll(dir)
	ok := filepath.Join(dir, "ok.asn1")
	os.WriteFile(ok, []byte(texts[1]), 0600)
	keep := filepath.Join(dir, "keep.go")
	os.WriteFile(keep, []byte("keep"), 0600)
	none := ""
	for _, u := range []struct {
		args []string
		text string
	}{
		{[]string{ok, keep, "third"}, ""}, {[]string{ok, keep, keep, keep}, ""}, {[]string{"-no-such-flag", ok, keep}, "no-such-flag"}, {[]string{filepath.Join(dir, "missing"), keep}, "missing"},
		{[]string{dir, keep}, ""}, {[]string{filepath.Join(dir, "missing")}, "missing"}, {[]string{"-package"}, "package"}, {[]string{"-default-integer-repr", "int32", ok, keep}, ""},
		{[]string{"-package=x", "-default-integer-repr=bigint", ok, keep}, ""},
		{[]string{filepath.Join(dir, "100%d"), keep}, "100%d"},
	} {
		h.try("usage", fmt.Sprintf("%q", u.args), true, func() string {
			stdout, stderr, err := vExec(dir, &none, u.args...)
			if err == nil || stdout != "" || strings.TrimSpace(stderr) == "" || !strings.Contains(stderr, u.text) {
				return fmt.Sprintf("ends with %v, prints %q and %q", err, stdout, stderr)
			}
			if b, _ := os.ReadFile(keep); string(b) != "keep" {
				return fmt.Sprintf("the existing output file is now %q", b)
			}
			return ""
		})
	}
	for k := 0; !h.over() && k < 100000; k++ {
		r := vRun{text: texts[k%len(texts)], named: h.rnd.Intn(2) == 0}
		r.pkg = []string{"", "main", "my_package", "x"}[h.rnd.Intn(4)]
		if h.rnd.Intn(3) == 0 {
			if w := vWord(h.rnd, token.IsIdentifier); w != "" {
				r.pkg = []string{w, "x" + w, w + "x", "x" + w + "x"}[h.rnd.Intn(4)]
			}
		}
		r.repr = []string{"", "int64", "big.Int", "int", "Int64"}[h.rnd.Intn(5)]
		if h.rnd.Intn(2) == 0 {
			r.repr = []string{"int64", "big.Int"}[h.rnd.Intn(2)]
		}
		r.output = []string{"", "", "new", "existing", "existing", "existing", "missing", "directory", "full", "same"}[h.rnd.Intn(10)]
		r.before = []string{"", "x", strings.Repeat("package old\n", 1000), strings.Repeat("// x\n", 200000)}[h.rnd.Intn(4)]
		h.try("run", r.String(), true, func() string { return r.check(scratch) })
	}
}
