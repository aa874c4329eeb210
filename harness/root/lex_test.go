package asn1go

import (
	"bufio"
	"fmt"
	"strconv"
	"strings"
	"testing/iotest"
)

func init() {
	vProps["C01"] = replayTokens
	vProps["C02"] = replayComments
}

var vReserved = map[string]int{"ABSENT": ABSENT, "ENCODED": ENCODED, "INTEGER": INTEGER, "RELATIVE-OID": RELATIVE_OID, "ABSTRACT-SYNTAX": ABSTRACT_SYNTAX,
	"END": END, "INTERSECTION": INTERSECTION, "SEQUENCE": SEQUENCE, "ALL": ALL, "ENUMERATED": ENUMERATED, "ISO646String": ISO646String, "SET": SET,
	"APPLICATION": APPLICATION, "EXCEPT": EXCEPT, "MAX": MAX, "SIZE": SIZE, "AUTOMATIC": AUTOMATIC, "EXPLICIT": EXPLICIT, "MIN": MIN, "STRING": STRING,
	"BEGIN": BEGIN, "EXPORTS": EXPORTS, "MINUS-INFINITY": MINUS_INFINITY, "SYNTAX": SYNTAX, "BIT": BIT, "EXTENSIBILITY": EXTENSIBILITY, "NULL": NULL,
	"T61String": T61String, "BMPString": BMPString, "EXTERNAL": EXTERNAL, "NumericString": NumericString, "TAGS": TAGS, "BOOLEAN": BOOLEAN, "FALSE": FALSE,
	"OBJECT": OBJECT, "TeletexString": TeletexString, "BY": BY, "FROM": FROM, "ObjectDescriptor": ObjectDescriptor, "TRUE": TRUE, "CHARACTER": CHARACTER,
	"GeneralizedTime": GeneralizedTime, "OCTET": OCTET, "TYPE-IDENTIFIER": TYPE_IDENTIFIER, "CHOICE": CHOICE, "GeneralString": GeneralString, "OF": OF,
	"UNION": UNION, "CLASS": CLASS, "GraphicString": GraphicString, "OPTIONAL": OPTIONAL, "UNIQUE": UNIQUE, "COMPONENT": COMPONENT, "IA5String": IA5String,
	"PATTERN": PATTERN, "UNIVERSAL": UNIVERSAL, "COMPONENTS": COMPONENTS, "IDENTIFIER": IDENTIFIER, "PDV": PDV, "UniversalString": UniversalString,
	"CONSTRAINED": CONSTRAINED, "IMPLICIT": IMPLICIT, "PLUS-INFINITY": PLUS_INFINITY, "UTCTime": UTCTime, "CONTAINING": CONTAINING, "IMPLIED": IMPLIED,
	"PRESENT": PRESENT, "UTF8String": UTF8String, "DEFAULT": DEFAULT, "IMPORTS": IMPORTS, "PrintableString": PrintableString, "VideotexString": VideotexString,
	"DEFINITIONS": DEFINITIONS, "INCLUDES": INCLUDES, "PRIVATE": PRIVATE, "VisibleString": VisibleString, "EMBEDDED": EMBEDDED, "INSTANCE": INSTANCE,
	"REAL": REAL, "WITH": WITH, "ANY": ANY, "DEFINED": DEFINED}

var vSymbols = map[byte]int{'{': OPEN_CURLY, '}': CLOSE_CURLY, '<': LESS, '>': GREATER, ',': COMMA, '.': DOT, '(': OPEN_ROUND, ')': CLOSE_ROUND,
	'[': OPEN_SQUARE, ']': CLOSE_SQUARE, '-': MINUS, ':': COLON, '=': EQUALS, '"': QUOTATION_MARK, '\'': APOSTROPHE, ';': SEMICOLON, '@': AT,
	'|': PIPE, '!': EXCLAMATION, '^': CARET}

func vAlpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func vDigit(c byte) bool { return c >= '0' && c <= '9' }
func vWhite(c byte) bool { return c >= 9 && c <= 13 || c == 32 }
func vBreak(c byte) bool { return c >= 10 && c <= 13 }

type vTok struct {
	code int
	text string
	end  int // offset behind the token
}

// vTokens is the independent tokeniser: the tokens, and the offset behind the character at which something is no token
// (-1 if there is no error). ok is false if a comment does not end.
func vTokens(s string) (l []vTok, bad int, ok bool) {
	i := 0
	numberEnd := -1
	for i < len(s) {
		c := s[i]
		two := s[i:]
		if len(two) > 3 {
			two = two[:3]
		}
		switch {
		case vWhite(c):
			i++
		case strings.HasPrefix(two, "--"):
			i += 2
			for i < len(s) {
				if strings.HasPrefix(s[i:], "--") {
					i += 2
					break
				}
				if vBreak(s[i]) {
					i++
					break
				}
				i++
			}
		case strings.HasPrefix(two, "/*"):
			i += 2
			depth := 1
			for depth > 0 {
				switch {
				case i >= len(s):
					return l, -1, false
				case strings.HasPrefix(s[i:], "/*"):
					depth++
					i += 2
				case strings.HasPrefix(s[i:], "*/"):
					depth--
					i += 2
				default:
					i++
				}
			}
		case (c == 'e' || c == 'E') && numberEnd == i:
			i++
			l = append(l, vTok{EXPONENT, string(c), i})
		case vAlpha(c):
			j := i
			for j < len(s) && (vAlpha(s[j]) || vDigit(s[j]) || s[j] == '-') {
				j++
				if strings.HasSuffix(s[i:j], "--") {
					return l, j, true
				}
			}
			w := s[i:j]
			if w[len(w)-1] == '-' {
				return l, j, true
			}
			k := VALUEIDENTIFIER
			if c <= 'Z' {
				k = TYPEORMODULEREFERENCE
				if r, ok := vReserved[w]; ok {
					k = r
				}
			}
			l = append(l, vTok{k, w, j})
			i = j
		case vDigit(c):
			j := i
			for j < len(s) && vDigit(s[j]) {
				j++
			}
			if _, err := strconv.ParseInt(s[i:j], 10, 64); err != nil {
				return l, j, true
			}
			l = append(l, vTok{NUMBER, s[i:j], j})
			i = j
			numberEnd = j
		case two == "::=":
			i += 3
			l = append(l, vTok{ASSIGNMENT, two, i})
		case two == "...":
			i += 3
			l = append(l, vTok{ELLIPSIS, two, i})
		case strings.HasPrefix(two, ".."):
			i += 2
			l = append(l, vTok{RANGE_SEPARATOR, "..", i})
		case strings.HasPrefix(two, "[["):
			i += 2
			l = append(l, vTok{LEFT_VERSION_BRACKETS, "[[", i})
		case strings.HasPrefix(two, "]]"):
			i += 2
			l = append(l, vTok{RIGHT_VERSION_BRACKETS, "]]", i})
		default:
			k, ok := vSymbols[c]
			if !ok {
				return l, i + 1, true
			}
			i++
			l = append(l, vTok{k, string(c), i})
		}
	}
	return l, -1, true
}

// vLexes compares the tokens of the lexer with those of the independent tokeniser.
func vLexes(s string, chunked bool) string {
	want, bad, ok := vTokens(s)
	if !ok {
		return ""
	}
	lex := &MyLexer{bufReader: bufio.NewReader(strings.NewReader(s))}
	if chunked {
		lex.bufReader = bufio.NewReader(iotest.OneByteReader(strings.NewReader(s)))
	}
	for i := 0; ; i++ {
		var v yySymType
		code := lex.Lex(&v)
		if i == len(want) {
			switch {
			case bad >= 0 && lex.err == nil:
				return fmt.Sprintf("token %d is %s, should be an error", i, yyTokname(vTokIndex(code)))
			case bad < 0 && (code != 0 || lex.err != nil):
				return fmt.Sprintf("token %d is %s %q (error %v), should be the end", i, yyTokname(vTokIndex(code)), v.name, lex.err)
			}
			return ""
		}
		w := want[i]
		if lex.err != nil {
			return fmt.Sprintf("token %d is an error: %v; should be %q", i, lex.err, w.text)
		}
		if code != w.code {
			return fmt.Sprintf("token %d is %s %q, should be %q", i, yyTokname(vTokIndex(code)), v.name, w.text)
		}
		if (code == TYPEORMODULEREFERENCE || code == VALUEIDENTIFIER) && v.name != w.text {
			return fmt.Sprintf("token %d is named %q, should be %q", i, v.name, w.text)
		}
		if code == NUMBER {
			if n, _ := strconv.ParseInt(w.text, 10, 64); int64(v.Number) != n {
				return fmt.Sprintf("token %d is %d, should be %s", i, v.Number, w.text)
			}
		}
	}
}

func vTokIndex(code int) int {
	if code >= yyPrivate && code < yyPrivate+len(yyTok2) {
		return int(yyTok2[code-yyPrivate])
	}
	return 1
}

func vExhaust(h *vh, id string, alphabet []string, n int, skip func(string) bool) bool {
	idx := make([]int, n)
	for {
		if h.over() {
			return false
		}
		s := ""
		for _, k := range idx {
			s += alphabet[k]
		}
		if !skip(s) {
			one := s
			h.try(id, fmt.Sprintf("%q", one), true, func() string { return vLexes(one, false) })
		}
		i := 0
		for ; i < n; i++ {
			idx[i]++
			if idx[i] < len(alphabet) {
				break
			}
			idx[i] = 0
		}
		if i == n {
			return true
		}
	}
}

func replayTokens(h *vh) {
	h.rep.Rule = "every reserved word, its proper prefixes, extensions and case variants; all texts of up to four pieces from an alphabet of letters, digits and punctuation; random longer texts, in one piece and byte by byte; non-trivial if the text has characters"
	no := func(string) bool { return false }
	try := func(id, s string) {
		h.try(id, fmt.Sprintf("%q", s), s != "", func() string {
			if w := vLexes(s, false); w != "" {
				return w
			}
			return vLexes(s, true)
		})
	}
	for w := range vReserved {
		for _, v := range []string{w, strings.ToLower(w), w[:len(w)-1], w[1:], w + "S", w + "s", w + "-X", w + "1", w + " ", w + "\n5", w + "-", w + "--x",
			strings.Title(strings.ToLower(w)), w + "{", "(" + w + ")", w + w, "5" + w, w + "5e3", strings.ToLower(w[:1]) + w[1:], strings.ReplaceAll(w, "-", "_"), strings.ReplaceAll(w, "-", ""),
			"a" + w, "A-" + w, w[:len(w)/2] + " " + w[len(w)/2:], w + ".", w + "::=", w + "\x00", w + "\xff"} {
			if h.over() {
				return
			}
			try("word", v)
		}
	}
	for c := 0; c < 256; c++ {
		for _, p := range []string{"", "a", "A", "5", ".", "[", ":", "-", "/", "a-", "5e"} {
			s := p + string([]byte{byte(c)})
			if c >= 128 && false {
				continue
			}
			try("character", s)
			try("character", s+"b")
		}
	}
	for _, r := range "☃€…–—\u2028\u00a0\u0085\ufeff\U0001F600" {
		for _, p := range []string{"", "a", "A", "5", ".", "["} {
			try("character", p+string(r)+"b")
		}
	}
	for _, s := range []string{"9223372036854775807", "9223372036854775808", "18446744073709551616", "00000000000000000000000000012", "99999999999999999999999999", "0", "00", "007",
		"1e", "1E", "1e5", "1 e5", "1\ne5", "1--x--e5", "1/**/e5", "1.e5", "1.5e5", "1.5E-5", "1ee", "1e e", "1eE5", "e1", "1-e", "1,e", "1:e", "12e-e", "A1e", "a1E5", "5ent", "5Ent"} {
		try("number", s)
	}
	al := []string{"a", "B", "e", "5", "0", "-", ".", ":", "=", "[", "]", "{", ",", "END", " ", "\"", "<"}
	for n := 1; n <= 4; n++ {
		if !vExhaust(h, "pieces", al, n, no) {
			return
		}
	}
	pieces := append([]string{"E", "x-y", "Z9", "INTEGER", "OBJECT IDENTIFIER", "...", "..", "::=", "[[", "]]", "(", ")", "|", "!", "^", ";", "@", "'", ">", "123", "9223372036854775807", "\n", "\t",
		"--c--", "/*c*/", "#", "~", "_", "+", "*", "/", "%", "\\", "a-", "A--", "PLUS-INFINITY", "MINUS-", "\x00", "é☃"[2:]}, al...)
	for !h.over() {
		s := ""
		for i := 0; i <= h.rnd.Intn(12); i++ {
			s += pieces[h.rnd.Intn(len(pieces))]
		}
		try("random", s)
	}
}

func replayComments(h *vh) {
	h.rep.Rule = "all texts of up to seven pieces from an alphabet of hyphens, slashes, stars, line ends and letters between tokens; random longer ones; comments that end; non-trivial if there is a comment or white space"
	skip := func(s string) bool { return false }
	al := []string{"-", "/", "*", "\n", "a"}
	for n := 1; n <= 7; n++ {
		if n == 7 && !h.thorough {
			break
		}
		if !vExhaust(h, "comments", al, n, skip) {
			return
		}
	}
	for _, c := range []string{"\n", "\r", "\v", "\f", "\t", " ", "\x00", "\x1c", "\x85", "\u00a0", "\u2028", "\u2029", "\u0085"} {
		for _, s := range []string{"a" + c + "b", "-- x" + c + "b", "-- x" + c + "-- b", "5" + c + "e", "/* x" + c + "*/b", "--" + c + "b --\n c", "A" + c + "::=", ":" + c + ":=", "." + c + "."} {
			h.try("white", fmt.Sprintf("%q", s), true, func() string { return vLexes(s, true) })
		}
	}
	pieces := []string{"-", "-", "--", "---", "----", "/*", "*/", "/", "*", "/**/", "/*/", "\n", "\r", "\v", "\f", "\t", " ", "a", "END", "5", "e", "::=", "\"", "'", "--é--", "/*é*/", "☃", "\x00", "\xff", "#", "{", "."}
	k := 0
	for !h.over() {
		k++
		s := ""
		for i := 0; i <= h.rnd.Intn(14); i++ {
			s += pieces[h.rnd.Intn(len(pieces))]
		}
		if _, _, ok := vTokens(s); !ok {
			continue
		}
		// letters outside of the ASCII range have no specified meaning outside of comments
		if l, bad, _ := vTokens(s); bad >= 0 && bad <= len(s) && s[bad-1] >= 0x80 {
			_ = l
			continue
		}
		h.try("random", fmt.Sprintf("%q", s), true, func() string { return vLexes(s, k%3 == 0) })
		// a comment is white space
		if k%5 == 0 {
			g := &vgen{r: h.rnd}
			_, t := g.module()
			plain, noisy := g.text(t, vPlain), g.text(t, vNoisy)
			h.try("module", fmt.Sprintf("%q", noisy), true, func() string {
				if w := vLexes(noisy, false); w != "" {
					return w
				}
				a, _, _ := vTokens(plain)
				b, _, _ := vTokens(noisy)
				if len(a) != len(b) {
					return ""
				}
				m1, e1 := ParseString(plain)
				m2, e2 := ParseString(noisy)
				if (e1 == nil) != (e2 == nil) || e1 == nil && !eq(*m1, *m2) {
					return fmt.Sprintf("means something else than with single spaces: %v against %v", e2, e1)
				}
				return ""
			})
		}
	}
}
