package utils

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
)

func init() {
	vProps["C19"] = replayDump
}

// vDecode is the independent decoder; ok is false if a column is not a byte.
func vDecode(s string) (out []byte, ok bool) {
	hex := func(c byte) int {
		return strings.IndexByte("0123456789abcdef", bytes.ToLower([]byte{c})[0])
	}
	column, from := 0, 0
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] != ' ' && s[i] != '\n' {
			continue
		}
		if c := s[from:i]; column > 0 && c != "" {
			if len(c) != 2 || hex(c[0]) < 0 || hex(c[1]) < 0 {
				return nil, false
			}
			out = append(out, byte(hex(c[0])*16+hex(c[1])))
		}
		column++
		from = i + 1
		if i < len(s) && s[i] == '\n' {
			column = 0
		}
	}
	return out, true
}

func vCheckDump(s string) string {
	want, ok := vDecode(s)
	got, panicked := func() (b []byte, p interface{}) {
		defer func() { p = recover() }()
		return ParseWiresharkHex(s), nil
	}()
	switch {
	case ok && panicked != nil:
		return fmt.Sprintf("is refused: %v", panicked)
	case !ok && panicked == nil:
		return fmt.Sprintf("is decoded to %x, should be refused", got)
	case ok && !bytes.Equal(got, want):
		return fmt.Sprintf("is decoded to %x, should be %x", got, want)
	}
	return ""
}

func replayDump(h *vh) {
	h.rep.Rule = "all columns of up to two characters and many of more; random dumps of up to twenty lines with empty, odd and damaged columns, some through the ws2bin command; non-trivial if there is a column behind the first"
	for a := 0; a < 256; a++ {
		one := "0000 " + string([]byte{byte(a)})
		h.try("column", fmt.Sprintf("%q", one), true, func() string { return vCheckDump(one) })
		for b := 0; b < 256; b++ {
			s := "0000 " + string([]byte{byte(a), byte(b)}) + " 7f"
			h.try("column", fmt.Sprintf("%q", s), true, func() string { return vCheckDump(s) })
		}
	}
	bin := os.Getenv("VERIF_BIN_WS2BIN")
	columns := []string{"00", "ff", "FF", "7F", "a1", "", "", "0", "f", "000", "100", "0x1", "0x", "+1", "-1", "1_", "_1", "1.", "zz", "g0", "0g", "\t", "a1\r", "1\t", "01", "10", "é"}
	for k := 0; !h.over(); k++ {
		var sb strings.Builder
		bad := h.rnd.Intn(3) == 0
		for l := 0; l <= h.rnd.Intn(20); l++ {
			offset := fmt.Sprintf("%04x", l*16)
			switch h.rnd.Intn(6) {
			case 0:
			case 1:
				offset = []string{"zz", "offset", "0x10", "12345678", "é"}[h.rnd.Intn(5)]
				sb.WriteString(offset)
			case 2:
				offset = fmt.Sprintf("%02x", h.rnd.Intn(256))
				sb.WriteString(offset)
			default:
				sb.WriteString(offset)
			}
			columns1 := h.rnd.Intn(18)
			if h.rnd.Intn(8) == 0 {
				columns1 = vCount(h.rnd, 300)
			}
			for c := 0; c < columns1; c++ {
				sb.WriteString(" ")
				if h.rnd.Intn(10) == 0 && (bad || len(offset) == 2) {
					sb.WriteString(offset)
				} else if bad && h.rnd.Intn(30) == 0 {
					sb.WriteString(columns[h.rnd.Intn(len(columns))])
				} else if h.rnd.Intn(12) != 0 {
					fmt.Fprintf(&sb, []string{"%02x", "%02X"}[h.rnd.Intn(2)], h.rnd.Intn(256))
				}
			}
			if h.rnd.Intn(10) != 0 {
				sb.WriteString("\n")
			}
		}
		s := sb.String()
		h.try("dump", fmt.Sprintf("%q", s), strings.Contains(s, " "), func() string { return vCheckDump(s) })
		if bin != "" && k%200 == 0 {
			h.try("command", fmt.Sprintf("%q", s), strings.Contains(s, " "), func() string {
				c := exec.Command(bin)
				c.Stdin = strings.NewReader(s)
				var out bytes.Buffer
				c.Stdout = &out
				err := c.Run()
				want, ok := vDecode(s)
				if ok != (err == nil) {
					return fmt.Sprintf("ws2bin ends with %v", err)
				}
				if ok && !bytes.Equal(out.Bytes(), want) {
					return fmt.Sprintf("ws2bin writes %x, should be %x", out.Bytes(), want)
				}
				if !ok && out.Len() > 0 {
					return fmt.Sprintf("ws2bin writes %x for a dump it refuses", out.Bytes())
				}
				return ""
			})
		}
	}
}
