package asn1go

import (
	"io"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// ======================================================================================================== characters

func specNewline(r rune) bool { return r >= 10 && r <= 13 }

func specWhite(r rune) bool { return r >= 9 && r <= 13 || r == 32 }

func specWordRune(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '-' }

//@ func isNewline(r rune) (result bool)
//@ props C01 C02 C04 C03
//@ ensures result == specNewline(r)

//@ func isWhitespace(r rune) (result bool)
//@ props C01 C02 C03
//@ ensures result == specWhite(r)

//@ func isIdentifierChar(r rune) (result bool)
//@ props C01 C03
//@ ensures result == specWordRune(r)

// specAt is the character at position i, 0 after the end.
func specAt(in []rune, i int) rune {
	if i >= 0 && i < len(in) {
		return in[i]
	}
	return 0
}

// ======================================================================================================== lines

//@ func specLines(in []rune, n int) (result int)
//@ props C04 C03
//@ ensures nonneg: result >= 0
//@ decreases n

// specLines is the number of newline characters among the first n characters.
func specLines(in []rune, n int) int {
	if n <= 0 {
		return 0
	}
	if specNewline(specAt(in, n-1)) {
		return specLines(in, n-1) + 1
	}
	return specLines(in, n-1)
}

func specLineOK(lex *MyLexer) bool {
	return lex.lineNo == specLines(rdIn(lex.bufReader), rdPos(lex.bufReader))
}

// ======================================================================================================== comments

//@ func specSkipLine(in []rune, p int) (result int)
//@ props C02 C03
//@ ensures p > len(in) || result >= p && result <= len(in)
//@ decreases len(in) - p

// specSkipLine is the position behind a -- comment whose text starts at p.
func specSkipLine(in []rune, p int) int {
	if p >= len(in) {
		return p
	}
	if specNewline(specAt(in, p)) {
		return p + 1
	}
	if specAt(in, p) == '-' && specAt(in, p+1) == '-' {
		return p + 2
	}
	return specSkipLine(in, p+1)
}

//@ func specSkipBlock(in []rune, p int) (result int)
//@ props C02 C03
//@ ensures p > len(in) || result >= p && result <= len(in)
//@ decreases len(in) - p

// specSkipBlock is the position behind a /* comment whose text starts at p.
func specSkipBlock(in []rune, p int) int {
	if p >= len(in) {
		return p
	}
	if specAt(in, p) == '*' && specAt(in, p+1) == '/' {
		return p + 2
	}
	if specAt(in, p) == '/' && specAt(in, p+1) == '*' {
		return specSkipBlock(in, specSkipBlock(in, p+2))
	}
	return specSkipBlock(in, p+1)
}

//@ func specSkip(in []rune, p int) (result int)
//@ props C01 C02 C03
//@ ensures p > len(in) || result >= p && result <= len(in)
//@ decreases len(in) - p

// specSkip is the position of the first token at or after p.
func specSkip(in []rune, p int) int {
	if p >= len(in) {
		return p
	}
	if specWhite(specAt(in, p)) {
		return specSkip(in, p+1)
	}
	if specAt(in, p) == '-' && specAt(in, p+1) == '-' {
		return specSkip(in, specSkipLine(in, p+2))
	}
	if specAt(in, p) == '/' && specAt(in, p+1) == '*' {
		return specSkip(in, specSkipBlock(in, p+2))
	}
	return p
}

//@ func (lex *MyLexer) skipLineComment()
//@ props C02 C04 C03
//@ requires specLineOK(lex)
//@ modifies *lex.bufReader, lex.lineNo
//@ ensures [C02] position: rdPos(lex.bufReader) == old(specSkipLine(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ ensures [C04] line: specLineOK(lex)
//@ inv () rdPos(lex.bufReader) >= old(rdPos(lex.bufReader))
//@ inv () specLineOK(lex)
//@ inv (h bool) !h || rdPos(lex.bufReader) > old(rdPos(lex.bufReader)) && specAt(rdIn(lex.bufReader), rdPos(lex.bufReader)-1) == '-'
//@ inv (h bool) h || specSkipLine(rdIn(lex.bufReader), rdPos(lex.bufReader)) == old(specSkipLine(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ inv (h bool) !h || specSkipLine(rdIn(lex.bufReader), rdPos(lex.bufReader)-1) == old(specSkipLine(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ inv (h rune) h != '-' || rdPos(lex.bufReader) > old(rdPos(lex.bufReader)) && specAt(rdIn(lex.bufReader), rdPos(lex.bufReader)-1) == '-'
//@ inv (h rune) h == '-' || specSkipLine(rdIn(lex.bufReader), rdPos(lex.bufReader)) == old(specSkipLine(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ inv (h rune) h != '-' || specSkipLine(rdIn(lex.bufReader), rdPos(lex.bufReader)-1) == old(specSkipLine(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ measure len(rdIn(lex.bufReader)) - rdPos(lex.bufReader)

//@ func (lex *MyLexer) skipBlockComment()
//@ props C02 C04 C03
//@ requires specLineOK(lex)
//@ modifies *lex.bufReader, lex.lineNo
//@ decreases len(rdIn(lex.bufReader)) - rdPos(lex.bufReader)
//@ ensures [C02] position: rdPos(lex.bufReader) == old(specSkipBlock(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ ensures [C04] line: specLineOK(lex)
//@ inv () rdPos(lex.bufReader) >= old(rdPos(lex.bufReader))
//@ inv () specLineOK(lex)
//@ inv (s bool, t bool) !s || !t
//@ inv (s bool) !s || rdPos(lex.bufReader) > old(rdPos(lex.bufReader)) && specAt(rdIn(lex.bufReader), rdPos(lex.bufReader)-1) == '/'
//@ inv (s bool) !s || rdPos(lex.bufReader) > old(rdPos(lex.bufReader)) && specAt(rdIn(lex.bufReader), rdPos(lex.bufReader)-1) == '*'
//@ inv (s bool, t bool) s || t || specSkipBlock(rdIn(lex.bufReader), rdPos(lex.bufReader)) == old(specSkipBlock(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ inv (h rune) h != '/' || rdPos(lex.bufReader) > old(rdPos(lex.bufReader)) && specAt(rdIn(lex.bufReader), rdPos(lex.bufReader)-1) == '/'
//@ inv (h rune) h != '*' || rdPos(lex.bufReader) > old(rdPos(lex.bufReader)) && specAt(rdIn(lex.bufReader), rdPos(lex.bufReader)-1) == '*'
//@ inv (h rune) h == '/' || h == '*' || specSkipBlock(rdIn(lex.bufReader), rdPos(lex.bufReader)) == old(specSkipBlock(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ inv (h rune) h != '/' && h != '*' || specSkipBlock(rdIn(lex.bufReader), rdPos(lex.bufReader)-1) == old(specSkipBlock(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ inv (s bool, t bool) !s && !t || specSkipBlock(rdIn(lex.bufReader), rdPos(lex.bufReader)-1) == old(specSkipBlock(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ measure len(rdIn(lex.bufReader)) - rdPos(lex.bufReader)

// ======================================================================================================== words and numbers

//@ func specWordEnd(in []rune, p int) (result int)
//@ props C01 C03
//@ ensures p > len(in) || result >= p && result <= len(in)
//@ decreases len(in) - p

// specWordEnd is the end of the longest run of letters, digits and hyphens at p.
func specWordEnd(in []rune, p int) int {
	if p >= len(in) || !specWordRune(specAt(in, p)) {
		return p
	}
	return specWordEnd(in, p+1)
}

//@ func specDigitsEnd(in []rune, p int) (result int)
//@ props C01 C08 C03
//@ ensures p > len(in) || result >= p && result <= len(in)
//@ decreases len(in) - p

// specDigitsEnd is the end of the longest run of digits at p.
func specDigitsEnd(in []rune, p int) int {
	if p >= len(in) || !unicode.IsDigit(specAt(in, p)) {
		return p
	}
	return specDigitsEnd(in, p+1)
}

// specText is the text from p to e.
func specText(in []rune, p, e int) string {
	if e <= p {
		return ""
	}
	return specText(in, p, e-1) + string(specAt(in, e-1))
}

//@ func specDouble(in []rune, p int) (result bool)
//@ props C01 C03
//@ decreases len(in) - p

// specDouble tells whether the run of word characters which p is in has two hyphens in a row at p or later.
func specDouble(in []rune, p int) bool {
	if p >= len(in) || p+1 >= len(in) || !specWordRune(specAt(in, p+1)) {
		return false
	}
	if specAt(in, p) == '-' && specAt(in, p+1) == '-' {
		return true
	}
	return specDouble(in, p+1)
}

//@ func (lex *MyLexer) consumeWord() (result string, err error)
//@ props C01 C03
//@ requires specLineOK(lex)
//@ requires rdPos(lex.bufReader) < len(rdIn(lex.bufReader)) && unicode.IsLetter(specAt(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ modifies *lex.bufReader, lex.lineNo
//@ ensures [C01] accepted: (err == nil) == old(specWordOK(rdIn(lex.bufReader), rdPos(lex.bufReader))) || err != nil && specCut(lex, old(specWordEnd(rdIn(lex.bufReader), rdPos(lex.bufReader))))
//@ ensures [C01] text: err != nil || result == old(specText(rdIn(lex.bufReader), rdPos(lex.bufReader), specWordEnd(rdIn(lex.bufReader), rdPos(lex.bufReader))))
//@ ensures [C01] position: err != nil || rdPos(lex.bufReader) == old(specWordEnd(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ ensures [C04] line: specLineOK(lex)
//@ inv () rdPos(lex.bufReader) > old(rdPos(lex.bufReader))
//@ inv () specLineOK(lex)
//@ inv () specWordEnd(rdIn(lex.bufReader), rdPos(lex.bufReader)) == old(specWordEnd(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ inv (acc string) acc == specText(rdIn(lex.bufReader), old(rdPos(lex.bufReader)), rdPos(lex.bufReader))
//@ inv (acc string) string(specAt(rdIn(lex.bufReader), old(rdPos(lex.bufReader))))+acc == specText(rdIn(lex.bufReader), old(rdPos(lex.bufReader)), rdPos(lex.bufReader))
//@ inv (acc []rune) string(acc) == specText(rdIn(lex.bufReader), old(rdPos(lex.bufReader)), rdPos(lex.bufReader))
//@ inv (acc []rune) len(acc) == rdPos(lex.bufReader)-old(rdPos(lex.bufReader)) && (len(acc) == 0 || acc[len(acc)-1] == specAt(rdIn(lex.bufReader), rdPos(lex.bufReader)-1))
//@ inv () specDouble(rdIn(lex.bufReader), rdPos(lex.bufReader)-1) == old(specDouble(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ inv () rdPos(lex.bufReader) >= old(rdPos(lex.bufReader))
//@ inv () rdPos(lex.bufReader) == old(rdPos(lex.bufReader)) || specDouble(rdIn(lex.bufReader), rdPos(lex.bufReader)-1) == old(specDouble(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ inv (l rune) l == specAt(rdIn(lex.bufReader), rdPos(lex.bufReader)-1)
//@ measure len(rdIn(lex.bufReader)) - rdPos(lex.bufReader)

// specCut tells whether a token that ends at e ends where the reader fails: it may as well be reported at once.
func specCut(lex *MyLexer, e int) bool {
	return e >= len(rdIn(lex.bufReader)) && rdFail(lex.bufReader) != io.EOF
}

// specWordOK tells whether the run at p is a word.
func specWordOK(in []rune, p int) bool {
	e := specWordEnd(in, p)
	return specAt(in, e-1) != '-' && !specDouble(in, p)
}

//@ func (lex *MyLexer) consumeNumber(lval *yySymType) (result int)
//@ props C01 C08 C03
//@ requires specLineOK(lex)
//@ requires rdPos(lex.bufReader) < len(rdIn(lex.bufReader)) && unicode.IsDigit(specAt(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ modifies *lex.bufReader, lex.lineNo, lex.err, lval.numberRepr, lval.Number
//@ ensures [C01] accepted: (result == NUMBER) == old(specNumberOK(rdIn(lex.bufReader), rdPos(lex.bufReader))) || result != NUMBER && specCut(lex, old(specDigitsEnd(rdIn(lex.bufReader), rdPos(lex.bufReader))))
//@ ensures [C01] refused: result == NUMBER || result == -1 && lex.err != nil
//@ ensures [C01 C08] value: result != NUMBER || lval.Number == old(specNumber(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ ensures [C01 C08] text: result != NUMBER || lval.numberRepr == old(specDigits(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ ensures [C01] position: result != NUMBER || rdPos(lex.bufReader) == old(specDigitsEnd(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ ensures [C04] line: specLineOK(lex)
//@ ensures [C04] first: old(lex.err) == nil || lex.err == old(lex.err)
//@ ensures [C04] message: result == NUMBER || old(lex.err) != nil || specErrAt(lex)
//@ ensures [C04] quiet: result != NUMBER || lex.err == old(lex.err)
//@ inv () rdPos(lex.bufReader) > old(rdPos(lex.bufReader))
//@ inv () specLineOK(lex)
//@ inv () specDigitsEnd(rdIn(lex.bufReader), rdPos(lex.bufReader)) == old(specDigitsEnd(rdIn(lex.bufReader), rdPos(lex.bufReader)))
//@ inv (acc string) acc == specText(rdIn(lex.bufReader), old(rdPos(lex.bufReader)), rdPos(lex.bufReader))
//@ inv (acc string) string(specAt(rdIn(lex.bufReader), old(rdPos(lex.bufReader))))+acc == specText(rdIn(lex.bufReader), old(rdPos(lex.bufReader)), rdPos(lex.bufReader))
//@ inv (acc []rune) string(acc) == specText(rdIn(lex.bufReader), old(rdPos(lex.bufReader)), rdPos(lex.bufReader))
//@ inv (acc []rune) len(acc) == rdPos(lex.bufReader)-old(rdPos(lex.bufReader)) && (len(acc) == 0 || acc[len(acc)-1] == specAt(rdIn(lex.bufReader), rdPos(lex.bufReader)-1))
//@ measure len(rdIn(lex.bufReader)) - rdPos(lex.bufReader)

func specDigits(in []rune, p int) string { return specText(in, p, specDigitsEnd(in, p)) }

func specNumber(in []rune, p int) Number {
	n, _ := strconv.Atoi(specDigits(in, p))
	return Number(n)
}

func specNumberOK(in []rune, p int) bool {
	_, err := strconv.Atoi(specDigits(in, p))
	return err == nil
}

// ======================================================================================================== errors

// specErrAt tells whether the lexer's error names the line after the newlines read so far.
func specErrAt(lex *MyLexer) bool {
	return lex.err != nil && strings.HasPrefix(lex.err.Error(), "line "+strconv.Itoa(specLines(rdIn(lex.bufReader), rdPos(lex.bufReader))+1)+": ")
}

//@ func (lex *MyLexer) Error(e string)
//@ props C04 C03
//@ modifies lex.err
//@ ensures [C03 C04] set: lex.err != nil
//@ ensures [C04] first: old(lex.err) == nil || lex.err == old(lex.err)
//@ ensures [C04] message: old(lex.err) != nil || eq(lex.err, fmt.Errorf("line %v: %v", lex.lineNo+1, e))

// ======================================================================================================== symbols

// specSymbol is the token of a single character, -1 if it is none.
func specSymbol(r rune) int {
	switch r {
	case '{':
		return OPEN_CURLY
	case '}':
		return CLOSE_CURLY
	case '<':
		return LESS
	case '>':
		return GREATER
	case ',':
		return COMMA
	case '.':
		return DOT
	case '(':
		return OPEN_ROUND
	case ')':
		return CLOSE_ROUND
	case '[':
		return OPEN_SQUARE
	case ']':
		return CLOSE_SQUARE
	case '-':
		return MINUS
	case ':':
		return COLON
	case '=':
		return EQUALS
	case '"':
		return QUOTATION_MARK
	case '\'':
		return APOSTROPHE
	case ';':
		return SEMICOLON
	case '@':
		return AT
	case '|':
		return PIPE
	case '!':
		return EXCLAMATION
	case '^':
		return CARET
	}
	return -1
}

//@ func (lex *MyLexer) consumeSingleSymbol(r rune) (result int)
//@ props C01 C03
//@ requires r != ' '
//@ requires specLineOK(lex)
//@ modifies lex.err
//@ ensures [C01] token: result == specSymbol(r)
//@ ensures [C01] refused: result >= 0 || lex.err != nil
//@ ensures [C04] first: old(lex.err) == nil || lex.err == old(lex.err)
//@ ensures [C04] message: result >= 0 || old(lex.err) != nil || specErrAt(lex)
//@ ensures [C04] quiet: result < 0 || lex.err == old(lex.err)

// ======================================================================================================== tokens

// specPunct is the token of the characters at p that are neither letter nor digit, and its length.
func specPunct(in []rune, p int) int {
	a, b, c := specAt(in, p), specAt(in, p+1), specAt(in, p+2)
	switch {
	case a == ':' && b == ':' && c == '=':
		return ASSIGNMENT
	case a == '.' && b == '.' && c == '.':
		return ELLIPSIS
	case a == '.' && b == '.':
		return RANGE_SEPARATOR
	case a == '[' && b == '[':
		return LEFT_VERSION_BRACKETS
	case a == ']' && b == ']':
		return RIGHT_VERSION_BRACKETS
	}
	return specSymbol(a)
}

func specPunctLen(in []rune, p int) int {
	a, b, c := specAt(in, p), specAt(in, p+1), specAt(in, p+2)
	switch {
	case a == ':' && b == ':' && c == '=', a == '.' && b == '.' && c == '.':
		return 3
	case a == '.' && b == '.', a == '[' && b == '[', a == ']' && b == ']':
		return 2
	}
	return 1
}

// specIsExponent tells whether the letter at q, met after skipping from p, is the exponent mark of the number before.
func specIsExponent(in []rune, p, q int, afterNumber bool) bool {
	return afterNumber && p == q && (specAt(in, q) == 'e' || specAt(in, q) == 'E')
}

// specToken is the token at q, the first character after p that is neither white space nor comment; -1 if it is none.
func specToken(in []rune, p, q int, afterNumber bool, fail error) int {
	r := specAt(in, q)
	switch {
	case q >= len(in):
		if fail == io.EOF {
			return 0
		}
		return -1
	case unicode.IsLetter(r):
		if specIsExponent(in, p, q, afterNumber) {
			return EXPONENT
		}
		if !specWordOK(in, q) {
			return -1
		}
		if !unicode.IsUpper(r) {
			return VALUEIDENTIFIER
		}
		if code, ok := specReserved[specWord(in, q)]; ok {
			return code
		}
		return TYPEORMODULEREFERENCE
	case unicode.IsDigit(r):
		if specNumberOK(in, q) {
			return NUMBER
		}
		return -1
	}
	return specPunct(in, q)
}

// specTokenEnd is the position behind the token.
func specTokenEnd(in []rune, p, q int, afterNumber bool) int {
	r := specAt(in, q)
	switch {
	case q >= len(in):
		return q
	case unicode.IsLetter(r):
		if specIsExponent(in, p, q, afterNumber) {
			return q + 1
		}
		return specWordEnd(in, q)
	case unicode.IsDigit(r):
		return specDigitsEnd(in, q)
	}
	return q + specPunctLen(in, q)
}

func specWord(in []rune, q int) string { return specText(in, q, specWordEnd(in, q)) }

//@ func (lex *MyLexer) peekRunes(n int) (result string)
//@ props C01 C03
//@ modifies *lex.bufReader
//@ requires n == 2
//@ ensures position: rdPos(lex.bufReader) == old(rdPos(lex.bufReader))
//@ ensures text: specPeeked(rdIn(lex.bufReader), rdPos(lex.bufReader), result)
//@ inv () rdPos(lex.bufReader) == old(rdPos(lex.bufReader))
//@ inv (m int) m >= 0
//@ inv (m int, p int) rdChar(lex.bufReader, p) == n - m
//@ inv (m int, acc string) acc == specText(rdIn(lex.bufReader), rdPos(lex.bufReader), rdPos(lex.bufReader)+n-m)
//@ inv (m int) rdPos(lex.bufReader)+n-m <= len(rdIn(lex.bufReader))
//@ inv (p =int, l int) l >= 1 && l <= rdNeed(lex.bufReader, rdChar(lex.bufReader, p))
//@ measure n

// specPeeked tells whether t is the text of the next two characters, or of fewer if that is where the text ends or a
// character that may be cut off follows.
func specPeeked(in []rune, p int, t string) bool {
	if p >= len(in) {
		return t == ""
	}
	if t == "" {
		return in[p] == utf8.RuneError
	}
	if p+1 >= len(in) {
		return t == string(in[p])
	}
	return t == string(in[p])+string(in[p+1]) || t == string(in[p]) && in[p+1] == utf8.RuneError
}

func specStart(lex *MyLexer) int { return specSkip(rdIn(lex.bufReader), rdPos(lex.bufReader)) }

//@ func (lex *MyLexer) Lex(lval *yySymType) (result int)
//@ props C01 C02 C03 C04
//@ requires specLineOK(lex)
//@ modifies *lex.bufReader, lex.lineNo, lex.err, lex.lastWasNumber, lval.name, lval.numberRepr, lval.Number
//@ ensures [C01 C02] token: result == old(specToken(rdIn(lex.bufReader), rdPos(lex.bufReader), specStart(lex), lex.lastWasNumber, rdFail(lex.bufReader))) || result == -1 && specCut(lex, old(specTokenEnd(rdIn(lex.bufReader), rdPos(lex.bufReader), specStart(lex), lex.lastWasNumber)))
//@ ensures [C01 C02] position: result < 0 || rdPos(lex.bufReader) == old(specTokenEnd(rdIn(lex.bufReader), rdPos(lex.bufReader), specStart(lex), lex.lastWasNumber))
//@ ensures [C01] name: result < 0 || result == NUMBER || result == EXPONENT || !unicode.IsLetter(old(specAt(rdIn(lex.bufReader), specStart(lex)))) || result != VALUEIDENTIFIER && result != TYPEORMODULEREFERENCE || lval.name == old(specWord(rdIn(lex.bufReader), specStart(lex)))
//@ ensures [C01 C08] number: result != NUMBER || lval.Number == old(specNumber(rdIn(lex.bufReader), specStart(lex))) && lval.numberRepr == old(specDigits(rdIn(lex.bufReader), specStart(lex)))
//@ ensures [C01 C08] after: result < 0 || lex.lastWasNumber == (result == NUMBER)
//@ ensures [C03 C04] line: specLineOK(lex)
//@ ensures [C03 C04] first: old(lex.err) == nil || lex.err == old(lex.err)
//@ ensures [C03 C04] message: result >= 0 || old(lex.err) != nil || specErrAt(lex)
//@ ensures [C03 C04] quiet: result < 0 || lex.err == old(lex.err)
//@ inv () rdPos(lex.bufReader) >= old(rdPos(lex.bufReader))
//@ inv () specLineOK(lex)
//@ inv () specStart(lex) == old(specStart(lex))
//@ inv (b bool) b == (old(lex.lastWasNumber) && rdPos(lex.bufReader) == old(rdPos(lex.bufReader)))
//@ measure len(rdIn(lex.bufReader)) - rdPos(lex.bufReader)

// specReserved are the reserved words of ASN.1 and their tokens.
var specReserved = map[string]int{
	"ABSENT":           ABSENT,
	"ENCODED":          ENCODED,
	"INTEGER":          INTEGER,
	"RELATIVE-OID":     RELATIVE_OID,
	"ABSTRACT-SYNTAX":  ABSTRACT_SYNTAX,
	"END":              END,
	"INTERSECTION":     INTERSECTION,
	"SEQUENCE":         SEQUENCE,
	"ALL":              ALL,
	"ENUMERATED":       ENUMERATED,
	"ISO646String":     ISO646String,
	"SET":              SET,
	"APPLICATION":      APPLICATION,
	"EXCEPT":           EXCEPT,
	"MAX":              MAX,
	"SIZE":             SIZE,
	"AUTOMATIC":        AUTOMATIC,
	"EXPLICIT":         EXPLICIT,
	"MIN":              MIN,
	"STRING":           STRING,
	"BEGIN":            BEGIN,
	"EXPORTS":          EXPORTS,
	"MINUS-INFINITY":   MINUS_INFINITY,
	"SYNTAX":           SYNTAX,
	"BIT":              BIT,
	"EXTENSIBILITY":    EXTENSIBILITY,
	"NULL":             NULL,
	"T61String":        T61String,
	"BMPString":        BMPString,
	"EXTERNAL":         EXTERNAL,
	"NumericString":    NumericString,
	"TAGS":             TAGS,
	"BOOLEAN":          BOOLEAN,
	"FALSE":            FALSE,
	"OBJECT":           OBJECT,
	"TeletexString":    TeletexString,
	"BY":               BY,
	"FROM":             FROM,
	"ObjectDescriptor": ObjectDescriptor,
	"TRUE":             TRUE,
	"CHARACTER":        CHARACTER,
	"GeneralizedTime":  GeneralizedTime,
	"OCTET":            OCTET,
	"TYPE-IDENTIFIER":  TYPE_IDENTIFIER,
	"CHOICE":           CHOICE,
	"GeneralString":    GeneralString,
	"OF":               OF,
	"UNION":            UNION,
	"CLASS":            CLASS,
	"GraphicString":    GraphicString,
	"OPTIONAL":         OPTIONAL,
	"UNIQUE":           UNIQUE,
	"COMPONENT":        COMPONENT,
	"IA5String":        IA5String,
	"PATTERN":          PATTERN,
	"UNIVERSAL":        UNIVERSAL,
	"COMPONENTS":       COMPONENTS,
	"IDENTIFIER":       IDENTIFIER,
	"PDV":              PDV,
	"UniversalString":  UniversalString,
	"CONSTRAINED":      CONSTRAINED,
	"IMPLICIT":         IMPLICIT,
	"PLUS-INFINITY":    PLUS_INFINITY,
	"UTCTime":          UTCTime,
	"CONTAINING":       CONTAINING,
	"IMPLIED":          IMPLIED,
	"PRESENT":          PRESENT,
	"UTF8String":       UTF8String,
	"DEFAULT":          DEFAULT,
	"IMPORTS":          IMPORTS,
	"PrintableString":  PrintableString,
	"VideotexString":   VideotexString,
	"DEFINITIONS":      DEFINITIONS,
	"INCLUDES":         INCLUDES,
	"PRIVATE":          PRIVATE,
	"VisibleString":    VisibleString,
	"EMBEDDED":         EMBEDDED,
	"INSTANCE":         INSTANCE,
	"REAL":             REAL,
	"WITH":             WITH,
	"ANY":              ANY,
	"DEFINED":          DEFINED,
}
