package asn1go

import (
	"bufio"
	"encoding/asn1"
	"os"
	"strconv"

	"io"
)

// ======================================================================================================== parsing

// abstractModule and abstractError are the outcome of parsing the text in which ends with the error fail of its reader.
func abstractModule(in []rune, fail error) *ModuleDefinition { return nil }
func abstractError(in []rune, fail error) error              { return nil }

func specNewLexer(lex *MyLexer) bool {
	return rdPos(lex.bufReader) == 0 && lex.err == nil && lex.result == nil && !lex.lastWasNumber && lex.lineNo == 0
}

//@ func yyParse(yylex yyLexer) (result int)
//@ props C03 C04 C17
//@ trusted "goyacc's parser driver: it reads tokens until its tables refuse one or accept, which they do only before token 0; its actions, its tables and the lexer are what the other contracts and the grammar obligations are about"
//@ requires specNewLexer(yylex.(*MyLexer))
//@ modifies *yylex.(*MyLexer).bufReader, yylex.(*MyLexer).lineNo, yylex.(*MyLexer).err, yylex.(*MyLexer).result, yylex.(*MyLexer).lastWasNumber
//@ ensures one: yylex.(*MyLexer).err != nil || yylex.(*MyLexer).result != nil && rdFail(yylex.(*MyLexer).bufReader) == io.EOF
//@ ensures function: yylex.(*MyLexer).err == abstractError(rdIn(yylex.(*MyLexer).bufReader), rdFail(yylex.(*MyLexer).bufReader))
//@ ensures function: yylex.(*MyLexer).err != nil || yylex.(*MyLexer).result == abstractModule(rdIn(yylex.(*MyLexer).bufReader), rdFail(yylex.(*MyLexer).bufReader))

func specError(r io.Reader) error {
	return abstractError(rdIn(bufio.NewReader(r)), rdFail(bufio.NewReader(r)))
}

func specModule(r io.Reader) *ModuleDefinition {
	return abstractModule(rdIn(bufio.NewReader(r)), rdFail(bufio.NewReader(r)))
}

// specPassedOn tells whether the effects t are reading from r.
func specPassedOn(t []interface{}, r io.Reader, buf []byte, n int, err error) bool {
	return eq(t, []interface{}{"io.Reader.Read", r, buf, n, err})
}

//@ func (r *stickyReader) Read(buf []byte) (n int, err error)
//@ props C03
//@ modifies r.err
//@ effects
//@ ensures [C03] passed: old(r.err) != nil || specPassedOn(trace()[len(oldTrace()):], r.reader, buf, n, err)
//@ ensures [C03] sticky: old(r.err) == nil || n == 0 && eq(err, old(r.err))
//@ ensures [C03] kept: eq(r.err, err)

//@ func ParseStream(reader io.Reader) (result *ModuleDefinition, err error)
//@ props C03 C04 C17
//@ ensures [C03] one: isNilPtr(result) != (err == nil)
//@ ensures [C03] failure: err != nil || rdFail(bufio.NewReader(reader)) == io.EOF
//@ ensures [C03 C04] error: eq(err, specError(reader))
//@ ensures [C03 C17] module: err != nil || eq(result, specModule(reader))

//@ func ParseString(str string) (result *ModuleDefinition, err error)
//@ props C03 C04 C17
//@ ensures [C03] one: isNilPtr(result) != (err == nil)
//@ ensures [C03 C04] error: eq(err, specError(strings.NewReader(str)))
//@ ensures [C03 C17] module: err != nil || eq(result, specModule(strings.NewReader(str)))

// specFileParsed tells whether the effects t are those of opening the file, and the results those of parsing it.
func specFileParsed(t []interface{}, name string, result *ModuleDefinition, err error) bool {
	if len(t) < 4 || !eq(t[0], "os.Open") || !eq(t[1], name) {
		return false
	}
	if t[3] != nil {
		return result == nil && eq(err, t[3])
	}
	f := t[2].(*os.File)
	return eq(err, specError(f)) && (err != nil || eq(result, specModule(f)))
}

//@ func ParseFile(name string) (result *ModuleDefinition, err error)
//@ props C03 C04 C17
//@ effects
//@ ensures [C03] one: isNilPtr(result) != (err == nil)
//@ ensures [C03 C04 C17] file: specFileParsed(trace()[len(oldTrace()):], name, result, err)

// ======================================================================================================== marshalling

// specMarshalled tells whether the effects t are writing the encoding of val, if it has one, and err says how it went.
func specMarshalled(t []interface{}, val interface{}, path string, mode os.FileMode, err error) bool {
	data, enc := asn1.Marshal(val)
	if enc != nil {
		return len(t) == 0 && eq(err, enc)
	}
	return eq(t, []interface{}{"os.WriteFile", path, data, mode, err})
}

//@ func MarshalToFile(val interface{}, path string, mode os.FileMode) (err error)
//@ props C20
//@ effects
//@ ensures [C20] written: specMarshalled(trace()[len(oldTrace()):], val, path, mode, err)

// ======================================================================================================== actions

func ptrTo(v Value) *Value               { return &v }
func refTo(v DefinedValue) *DefinedValue { return &v }

// realText is the decimal notation of a real, as strconv reads it.
func realText(integer, fraction string, exponent int) string {
	return integer + "." + fraction + "e" + strconv.Itoa(exponent)
}

// realValue is the float64 nearest to the number written as text.
func realValue(text string) Real {
	v, _ := strconv.ParseFloat(text, 64)
	return Real(v)
}

// realReported tells whether an error is set in the lexer, and the first one, if the number written as text is out of
// range, and otherwise nothing changed.
func realReported(before, after error, text string) bool {
	_, err := strconv.ParseFloat(text, 64)
	if err == nil || before != nil {
		return after == before
	}
	return after != nil
}

// ======================================================================================================== the command

// VerifError and VerifModule are the outcome of parsing what r delivers.
func VerifError(r io.Reader) error             { return specError(r) }
func VerifModule(r io.Reader) *ModuleDefinition { return specModule(r) }

func verifParams(p GenParams) GenParams {
	if p.IntegerRepr == "" {
		p.IntegerRepr = IntegerReprInt64
	}
	return p
}

// VerifBad tells whether generating m is an error.
func VerifBad(p GenParams, m ModuleDefinition) bool { return specModuleBad(verifParams(p), m) }

// VerifFile tells whether file is the one generated from m if the packages mods are imported.
func VerifFile(p GenParams, m ModuleDefinition, mods []string, file interface{}) bool {
	return eq(file, specFile(verifParams(p), m, mods))
}
