package utils

import (
	"strconv"
	"strings"
)

// specLine is the i-th element, "" outside.
func specItem(l []string, i int) string {
	if i >= 0 && i < len(l) {
		return l[i]
	}
	return ""
}

// specColumns are the columns of line i.
func specColumns(lines []string, i int) []string { return strings.Split(specItem(lines, i), " ") }

func specByteOK(c string) bool {
	_, err := strconv.ParseUint(c, 16, 8)
	return len(c) == 2 && err == nil
}

func specByte(c string) string {
	v, _ := strconv.ParseUint(c, 16, 8)
	return string([]byte{byte(v)})
}

// specRow are the bytes of the columns 1 to n-1.
func specRow(cols []string, n int) string {
	if n <= 1 {
		return ""
	}
	if specItem(cols, n-1) == "" {
		return specRow(cols, n-1)
	}
	return specRow(cols, n-1) + specByte(specItem(cols, n-1))
}

//@ func specRowBad(cols []string, n int) (result bool)
//@ props C19
//@ decreases len(cols) - n

// specRowBad tells whether one of the columns from n on is neither empty nor a byte.
func specRowBad(cols []string, n int) bool {
	if n >= len(cols) {
		return false
	}
	if specItem(cols, n) != "" && !specByteOK(specItem(cols, n)) {
		return true
	}
	return specRowBad(cols, n+1)
}

// specDump are the bytes of the first n lines.
func specDump(lines []string, n int) string {
	if n <= 0 {
		return ""
	}
	return specDump(lines, n-1) + specRow(specColumns(lines, n-1), len(specColumns(lines, n-1)))
}

//@ func specDumpBad(lines []string, n int) (result bool)
//@ props C19
//@ decreases len(lines) - n

// specDumpBad tells whether one of the lines from n on has a bad column.
func specDumpBad(lines []string, n int) bool {
	if n >= len(lines) {
		return false
	}
	if specRowBad(specColumns(lines, n), 1) {
		return true
	}
	return specDumpBad(lines, n+1)
}

//@ func ParseWiresharkHex(str string) (result []byte)
//@ props C19
//@ ensures [C19] bytes: string(result) == specDump(strings.Split(str, "\n"), len(strings.Split(str, "\n")))
//@ panics [C19] refused: specDumpBad(strings.Split(str, "\n"), 0)
//@ inv (i int, b string) b == specDump(strings.Split(str, "\n"), i+1)
//@ inv (i int, b string) b == specDump(strings.Split(str, "\n"), i)
//@ inv (i =int, j int, b string) b == specDump(strings.Split(str, "\n"), i) + specRow(specColumns(strings.Split(str, "\n"), i), j+2)
//@ inv (c =[]string, j int, b string) b == specRow(c, j+2)
//@ inv (i =int, j int, b string) b == specDump(strings.Split(str, "\n"), i) + specRow(specColumns(strings.Split(str, "\n"), i), j+1)
//@ inv (c =[]string, j int, b string) b == specRow(c, j+1)
//@ inv (i =int, j int, b string) b == specDump(strings.Split(str, "\n"), i) + specRow(specColumns(strings.Split(str, "\n"), i), j)
//@ inv (c =[]string, j int, b string) b == specRow(c, j)
//@ inv (i int, b []byte) string(b) == specDump(strings.Split(str, "\n"), i+1)
//@ inv (i int, b []byte) string(b) == specDump(strings.Split(str, "\n"), i)
//@ inv (i =int, j int, b []byte) string(b) == specDump(strings.Split(str, "\n"), i) + specRow(specColumns(strings.Split(str, "\n"), i), j+2)
//@ inv (c =[]string, j int, b []byte) string(b) == specRow(c, j+2)
//@ inv (i =int, j int, b []byte) string(b) == specDump(strings.Split(str, "\n"), i) + specRow(specColumns(strings.Split(str, "\n"), i), j+1)
//@ inv (c =[]string, j int, b []byte) string(b) == specRow(c, j+1)
//@ inv (i =int, j int, b []byte) string(b) == specDump(strings.Split(str, "\n"), i) + specRow(specColumns(strings.Split(str, "\n"), i), j)
//@ inv (c =[]string, j int, b []byte) string(b) == specRow(c, j)
//@ inv (i int) specDumpBad(strings.Split(str, "\n"), 0) == specDumpBad(strings.Split(str, "\n"), i+1)
//@ inv (i int) specDumpBad(strings.Split(str, "\n"), 0) == specDumpBad(strings.Split(str, "\n"), i)
//@ inv (c =[]string, j int) j+2 <= 1 || specRowBad(c, 1) == specRowBad(c, j+2)
//@ inv (c =[]string, j int) j+1 <= 1 || specRowBad(c, 1) == specRowBad(c, j+1)
//@ inv (c =[]string, j int) j <= 1 || specRowBad(c, 1) == specRowBad(c, j)
