package types

import (
	"fmt"
	"strings"
	"sync"
	"testing"
)

func zzNames(e *zzEnv) []string {
	var ns []string
	for k := range keywords {
		ns = append(ns, k, strings.ToLower(k))
	}
	for k := range identifiers {
		ns = append(ns, k, strings.ToUpper(k))
	}
	for n := 120; n < 136; n++ {
		ns = append(ns, strings.Repeat("a", n), strings.Repeat("A", n), strings.Repeat("a", n)+"b", strings.Repeat("\u00e9", n/2)+"x", strings.Repeat("\u0130", n/2), strings.Repeat("\u023a", n/2)+"q")
	}
	for i := 0; i < 300; i++ {
		n := e.Intn(12)
		b := make([]byte, n)
		for j := range b {
			b[j] = "abAB_ \x00\xff\xc3\xa9'"[e.Intn(11)]
		}
		ns = append(ns, string(b))
	}
	ns = append(ns, "", "l\u0131m\u0131t", "\u212a", "\xff\xfe", strings.Repeat("z", 400))
	return ns
}

func zzCut(s string) string {
	if len(s) > MaxIdentifier {
		return s[:MaxIdentifier]
	}
	return s
}

func TestFalsify_C10(t *testing.T) {
	e := zzStart(t)
	defer e.end()
	seen := map[string]Identifier{}
	byID := map[Identifier]string{}
	first := lastIdentifier
	for s, id := range identifiers {
		seen[s] = id
		byID[id] = s
	}
	for round := 0; round < 2; round++ {
		ns := zzNames(e)
		for _, s := range ns {
			for _, q := range []bool{true, false} {
				e.n++
				id := ID(s, q)
				kid, kw := keywords[strings.ToUpper(s)]
				if !q && kw {
					if id != kid {
						e.found("ID(%q, false) = %d, the keyword is %d", s, id, kid)
					}
					continue
				}
				name := zzCut(s)
				if !q {
					name = zzCut(strings.ToLower(s))
				}
				if old, ok := seen[name]; ok && old != id {
					e.found("the name %q got identifier %d, then ID(%q, %v) = %d", name, old, s, q, id)
				}
				if old, ok := byID[id]; ok && old != name {
					e.found("ID(%q, %v) = %d, which is the identifier of %q", s, q, id, old)
				}
				for k, i := range keywords {
					if i == id {
						e.found("ID(%q, %v) = %d, the keyword %s", s, q, id, k)
					}
				}
				seen[name], byID[id] = id, name
				if got := id.String(); got != name || len(got) > MaxIdentifier {
					e.found("ID(%q, %v).String() = %q", s, q, got)
				}
			}
		}
	}
	_ = first
}

func TestFalsify_C11(t *testing.T) {
	e := zzStart(t)
	defer e.end()
	ids := map[Identifier]bool{}
	for _, id := range keywords {
		ids[id] = true
	}
	for _, s := range zzNames(e) {
		ids[ID(s, true)] = true
		ids[ID(s, false)] = true
	}
	for id := range ids {
		e.n++
		buf, err := id.GobEncode()
		if err != nil {
			e.found("encoding identifier %d %q: %s", id, id, err)
		}
		var d Identifier
		if err := d.GobDecode(buf); err != nil || d != id {
			e.found("identifier %d %q decodes to %d %q, error %v", id, id, d, d, err)
		}
	}
	for _, b := range [][]byte{nil, {}, {2}, {2, 'a'}, {255, 'x'}, {3, 0, 0}} {
		d := Identifier(-77)
		if err := d.GobDecode(b); err == nil {
			e.found("decoding %v gives %d and no error", b, d)
		}
	}
}

// run with the race detector
func TestFalsify_C12(t *testing.T) {
	e := zzStart(t)
	defer e.end()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 500; i++ {
				id := ID(fmt.Sprintf("zz%d", (i*7+g)%600), i%2 == 0)
				_ = id.String()
				buf, _ := id.GobEncode()
				var d Identifier
				d.GobDecode(buf)
				_ = d.IsReserved()
			}
		}()
	}
	// some who do nothing but look at the identifiers they have, so that nothing
	// orders them after the others
	have := []Identifier{ID("zz0", true), ID("zzlook", true), SELECT}
	type look func(id Identifier)
	for _, f := range []look{
		func(id Identifier) { id.IsReserved() },
		func(id Identifier) { _ = id.String() },
		func(id Identifier) { id.GobEncode() },
		func(id Identifier) { var d Identifier; b, _ := id.GobEncode(); d.GobDecode(b) },
		func(id Identifier) { ID("zzlook", true) },
	} {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 500; i++ {
				f(have[i%len(have)])
			}
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	e.wait(done, "identifiers created and printed by 13 goroutines")
	e.n += 8 * 500
}
