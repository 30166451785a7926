package zzverif

// Coverage-guided search over documents (thorough tier): Go's fuzzer mutates the text of generated ones.

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"testing"

	"pgregory.net/rapid"
)

// FuzzVerif runs the check VERIF_PROP/VERIF_SUB. Workers leave their counts in VERIF_OUT, and the replay file of a
// violation.
func FuzzVerif(f *testing.F) {
	prop, name := os.Getenv("VERIF_PROP"), os.Getenv("VERIF_SUB")
	var s *Sub
	for _, x := range registry {
		if x.Prop == prop && x.Name == name {
			s = x
		}
	}
	if s == nil {
		f.Skip("no such check")
	}
	var seed uint64 = 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	known := knownSigs()
	n, nontrivial := 0, 0
	counter := filepath.Join(outDir, fmt.Sprintf("guided-%d.count", os.Getpid()))
	current := filepath.Join(outDir, fmt.Sprintf("guided-%d.current.json", os.Getpid()))
	run := func(t *testing.T, plan []byte) string {
		c := &Ctx{}
		writeReplay(current, s, plan, nil)
		v := s.runCase(t, c, plan)
		n++
		if c.nontrivial {
			nontrivial++
		}
		if n%200 == 0 {
			must(os.WriteFile(counter, []byte(fmt.Sprintf("%d %d\n", n, nontrivial)), 0o644))
		}
		if harnessFailure != "" {
			must(os.WriteFile(filepath.Join(outDir, "guided.error"), []byte(harnessFailure), 0o644))
			return "harness failure"
		}
		if v == nil || known[v.Sig] {
			return ""
		}
		h := sha256.Sum256([]byte(v.Sig))
		// the fuzzer minimizes the input, keep the smallest plan
		path := filepath.Join(outDir, "guided-"+hex.EncodeToString(h[:4])+".replay.json")
		if old, err := os.Stat(path); err != nil || old.Size() > int64(len(plan)) {
			writeReplay(path, s, plan, v)
		}
		return v.Sig
	}
	if prop == "C08" && name == "documents" {
		// the bytes are the document itself
		names := append(schemaNames(), "jwks")
		vias := []string{"json", "jwt", "yaml", "set"}
		valid := func(kind, via string) bool {
			switch via {
			case "jwt":
				return jwtTypes[kind] != ""
			case "yaml":
				return kind == "markspec"
			case "set":
				return kind == "jwks"
			}
			return kind != "jwks"
		}
		g := rapid.Custom(genDocPlan)
		for i := 0; i < 400; i++ {
			p := g.Example(int(seed)*1000 + i)
			f.Add(byte(slices.Index(names, p.Kind)), byte(slices.Index(vias, p.Via)), p.Text, p.Head)
		}
		f.Fuzz(
			func(t *testing.T, kind, via byte, text, head []byte) {
				p := DocPlan{Kind: names[int(kind)%len(names)], Via: vias[int(via)%len(vias)], Text: text}
				if !valid(p.Kind, p.Via) {
					t.Skip()
				}
				if p.Via == "jwt" && len(head) > 0 {
					p.Head = head
				}
				if bad := run(t, must1(json.Marshal(p))); bad != "" {
					t.Fatal(bad)
				}
			},
		)
		return
	}
	if prop == "C08" && name == "policies" {
		g := rapid.Custom(genNastyPolicyPlan)
		for i := 0; i < 400; i++ {
			p := g.Example(int(seed)*1000 + i)
			f.Add([]byte(p.Meta), []byte(p.Pols[0]), []byte(p.Pols[len(p.Pols)-1]))
		}
		f.Fuzz(
			func(t *testing.T, meta, a, b []byte) {
				if !json.Valid(meta) || !json.Valid(a) || !json.Valid(b) {
					t.Skip()
				}
				p := NastyPolicyPlan{Meta: meta, Pols: []json.RawMessage{a}}
				if string(a) != string(b) {
					p.Pols = append(p.Pols, b)
				}
				if bad := run(t, must1(json.Marshal(p))); bad != "" {
					t.Fatal(bad)
				}
			},
		)
		return
	}
	f.Skip("not guided")
}
