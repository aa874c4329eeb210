package asn1go

import (
	"encoding/asn1"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func init() {
	vProps["C20"] = replayMarshal
}

func replayMarshal(h *vh) {
	h.rep.Rule = "values with and without DER encoding written to new, existing, missing-directory, directory and full-device paths with several modes; the file against encoding/asn1's bytes, the directory listing and contents if there is an error; non-trivial always"
	type inner struct {
		A int    `asn1:"optional"`
		S string `asn1:"utf8"`
	}
	type outer struct {
		X  int64
		B  []byte
		T  time.Time
		O  asn1.ObjectIdentifier
		I  inner `asn1:"explicit,tag:3"`
		L  []inner
		BS asn1.BitString
	}
	type bad struct {
		X int
		C chan int
	}
	type badLate struct {
		L []inner
		S string `asn1:"ia5"`
	}
	values := func() []interface{} {
		return []interface{}{nil, 0, -1, h.rnd.Int63(), -h.rnd.Int63(), true, "x", "é", "\xff", strings.Repeat("y", h.rnd.Intn(70000)), []byte(nil), make([]byte, h.rnd.Intn(1000)),
			asn1.ObjectIdentifier{1, 2, 3}, asn1.ObjectIdentifier{}, asn1.ObjectIdentifier{5, 99}, big.NewInt(h.rnd.Int63()), 3.5, map[string]int{}, func() {}, make(chan int), struct{}{}, bad{1, nil},
			badLate{[]inner{{1, "ok"}}, "é"}, badLate{[]inner{{1, "ok"}}, "e"}, inner{5, "\xff"}, inner{0, "s"}, outer{1, []byte{1}, time.Unix(1e9, 0).UTC(), asn1.ObjectIdentifier{1, 2}, inner{7, "z"}, []inner{{1, "a"}, {2, "b"}}, asn1.BitString{Bytes: []byte{0x80}, BitLength: 1}},
			outer{}, time.Unix(1<<40, 0), time.Unix(0, 0).UTC(), []inner{}, []inner{{0, "q"}}, [3]int{1, 2, 3}, asn1.Enumerated(5), asn1.RawValue{Class: 2, Tag: 5, Bytes: []byte{1, 2}}, asn1.RawValue{FullBytes: []byte{5, 0}}, (*int)(nil), (*big.Int)(nil), int32(7), uint(3), []string{"a", "b"}, []interface{}{1, "x"}}
	}
	root := os.Getenv("VERIF_SCRATCH")
	for !h.over() {
		for i, v := range values() {
			for _, where := range []string{"new", "existing", "longer", "missing", "directory", "full"} {
				if h.over() {
					return
				}
				mode := []os.FileMode{0600, 0644, 0400, 0}[h.rnd.Intn(4)]
				h.try("marshal", fmt.Sprintf("value %d of type %T to a path that is %s, mode %o", i, v, where, mode), true, func() string {
					dir, err := os.MkdirTemp(root, "c20")
					if err != nil {
						return ""
					}
					defer os.RemoveAll(dir)
					var want []byte
					var werr error
					panics := func() (p bool) {
						defer func() { p = recover() != nil }()
						want, werr = asn1.Marshal(v)
						return false
					}()
					p := filepath.Join(dir, "f")
					before := ""
					switch where {
					case "existing":
						before = "old"
						os.WriteFile(p, []byte(before), 0600)
					case "longer":
						before = strings.Repeat("old", 50000)
						os.WriteFile(p, []byte(before), 0600)
					case "missing":
						p = filepath.Join(dir, "d", "f")
					case "directory":
						os.Mkdir(p, 0700)
					case "full":
						p = "/dev/full"
						if werr == nil && len(want) == 0 {
							return ""
						}
					}
					gotPanic := func() (p2 interface{}) {
						defer func() { p2 = recover() }()
						err = MarshalToFile(v, p, mode)
						return nil
					}()
					if panics {
						if gotPanic == nil && err == nil {
							return "succeeds for a value that has no encoding"
						}
						werr = fmt.Errorf("no encoding")
					} else if gotPanic != nil {
						return fmt.Sprintf("panics: %v", gotPanic)
					}
					fails := werr != nil || where == "missing" || where == "directory" || where == "full"
					if !panics && (err != nil) != fails {
						return fmt.Sprintf("returns %v, the encoding error is %v", err, werr)
					}
					if werr != nil && !panics && err.Error() != werr.Error() && !strings.Contains(err.Error(), werr.Error()) {
						return fmt.Sprintf("returns %v, the encoding error is %v", err, werr)
					}
					if werr != nil {
						names, _ := os.ReadDir(dir)
						n := 0
						if where == "existing" || where == "longer" || where == "directory" {
							n = 1
						}
						if len(names) != n {
							return fmt.Sprintf("leaves %d files behind without an encoding", len(names))
						}
						if before != "" {
							if b, _ := os.ReadFile(p); string(b) != before {
								return "changes the file although there is no encoding"
							}
						}
						return ""
					}
					if fails {
						return ""
					}
					if b, e := os.ReadFile(p); e != nil || string(b) != string(want) {
						return fmt.Sprintf("the file holds %.100x (%d bytes), the encoding is %.100x (%d bytes)", b, len(b), want, len(want))
					}
					return ""
				})
			}
		}
	}
}
