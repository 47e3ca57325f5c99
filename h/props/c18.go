package props

import (
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/h/core"
	"verif.local/h/ref"

	"github.com/warthog618/sms/encoding/gsm7/charset"
)

func init() {
	if s := os.Getenv("VERIF_C18_PROBE"); s != "" {
		c18probe(s)
	}
	core.Register("C18",
		core.Sub{Name: "tables", Bound: "all languages -1..30 and outliers x 4 table kinds and the 4 default tables: every code 0..255 and every rune of any table or 0..0x2fff", Body: c18tables},
		core.Sub{Name: "call-pairs", Bound: "all ordered pairs of (kind, language) calls in one process: the same table, unchanged, on every call", Body: c18pairs},
		core.Sub{Name: "first-use", Bound: "all ordered pairs of first uses of (kind, language), each pair in a fresh process; thorough: also all triples within one language and the default", Custom: c18firstUse},
	)
}

var c18nlis = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, -1}

var c18odd = []int{15, 16, 24, 25, 30, 127, 128, 255, 256, 257, 269, 1 << 20, -128, -255, -256}

const c18kinds = 4

func c18show(kind, nli int) string {
	return fmt.Sprintf("%s(%d)", []string{"NewDecoder", "NewExtDecoder", "NewEncoder", "NewExtEncoder", "DefaultDecoder", "DefaultExtDecoder", "DefaultEncoder", "DefaultExtEncoder"}[kind], nli)
}

// c18check calls one table function and compares the whole table.
func c18check(kind, nli int) string {
	var dec charset.Decoder
	var enc charset.Encoder
	var t *ref.Table
	switch kind {
	case 0:
		dec, t = charset.NewDecoder(nli), ref.LockTable(nli)
	case 1:
		dec, t = charset.NewExtDecoder(nli), ref.ShiftTable(nli)
	case 2:
		enc, t = charset.NewEncoder(nli), ref.LockTable(nli)
	case 3:
		enc, t = charset.NewExtEncoder(nli), ref.ShiftTable(nli)
	case 4:
		dec, t = charset.DefaultDecoder(), ref.LockTable(0)
	case 5:
		dec, t = charset.DefaultExtDecoder(), ref.ShiftTable(0)
	case 6:
		enc, t = charset.DefaultEncoder(), ref.LockTable(0)
	case 7:
		enc, t = charset.DefaultExtEncoder(), ref.ShiftTable(0)
	}
	n := 0
	runes := map[rune]bool{}
	for _, r := range t {
		if r >= 0 {
			n++
			runes[r] = true
		}
	}
	if kind&2 == 0 {
		for c := 0; c < 256; c++ {
			r, ok := dec[byte(c)]
			want := rune(-1)
			if c < 128 {
				want = t[c]
			}
			if ok != (want >= 0) || ok && r != want {
				return fmt.Sprintf("%s code 0x%02x is %q (present %v); want %q (present %v)", c18show(kind, nli), c, r, ok, want, want >= 0)
			}
		}
		if len(dec) != n {
			return fmt.Sprintf("%s has %d codes; want %d", c18show(kind, nli), len(dec), n)
		}
		return ""
	}
	for r := range runes {
		c, ok := enc[r]
		if !ok || c > 127 || t[c] != r {
			return fmt.Sprintf("%s maps %q to 0x%02x (present %v), which does not decode to it", c18show(kind, nli), r, c, ok)
		}
	}
	if len(enc) != len(runes) {
		for r := range enc {
			if !runes[r] {
				return fmt.Sprintf("%s encodes %q, which is not in the table", c18show(kind, nli), r)
			}
		}
		return fmt.Sprintf("%s has %d characters; want %d", c18show(kind, nli), len(enc), len(runes))
	}
	return ""
}

func c18tables(x *X) {
	kind := x.Choose(8)
	nli := 0
	for i, n := range []int{charset.Default, charset.Turkish, charset.Spanish, charset.Portuguese, charset.Bengali, charset.Gujaranti, charset.Hindi, charset.Kannada, charset.Malayalam, charset.Oriya, charset.Punjabi, charset.Tamil, charset.Telugu, charset.Urdu, charset.End} {
		if n != i {
			x.Failf("the named language %d has identifier %d", i, n)
		}
	}
	if kind < 4 {
		k := x.Choose(len(c18nlis) + len(c18odd))
		if k < len(c18nlis) {
			nli = c18nlis[k]
		} else {
			nli = c18odd[k-len(c18nlis)]
		}
	}
	x.Op()
	x.State(core.HashInts(kind, nli))
	x.Logf("%s compared with TS 23.038", c18show(kind, nli))
	if m := c18check(kind, nli); m != "" {
		x.Failf("%s", m)
	}
}

func c18pairs(x *X) {
	a, an := x.Choose(c18kinds), c18nlis[x.Choose(len(c18nlis))]
	b, bn := x.Choose(c18kinds), c18nlis[x.Choose(len(c18nlis))]
	x.Ops(3)
	x.State(core.HashInts(a, an, b, bn))
	for i, p := range [][2]int{{a, an}, {b, bn}, {a, an}} {
		if m := c18check(p[0], p[1]); m != "" {
			x.Failf("call %d of %s, %s, %s: %s", i+1, c18show(a, an), c18show(b, bn), c18show(a, an), m)
		}
	}
	x.Logf("%s, %s, %s all as the standard", c18show(a, an), c18show(b, bn), c18show(a, an))
}

func c18probe(s string) {
	for i, c := range strings.Split(s, ";") {
		f := strings.Split(c, ",")
		k, _ := strconv.Atoi(f[0])
		n, _ := strconv.Atoi(f[1])
		if m := c18check(k, n); m != "" {
			fmt.Printf("call %d: %s\n", i+1, m)
			os.Exit(42)
		}
	}
	os.Exit(43)
}

func c18firstUse(r *core.Run) (res core.Result) {
	start := time.Now()
	type item struct{ kind, nli int }
	var items []item
	for k := 0; k < c18kinds; k++ {
		for _, n := range c18nlis[:15] {
			items = append(items, item{k, n})
		}
	}
	var seqs [][]item
	for _, a := range items {
		for _, b := range items {
			seqs = append(seqs, []item{a, b, a})
		}
	}
	if r.Tier > 0 {
		for n := 1; n < 14; n++ {
			var own []item
			for k := 0; k < c18kinds; k++ {
				own = append(own, item{k, n}, item{k, 0})
			}
			for _, a := range own {
				for _, b := range own {
					for _, c := range own {
						seqs = append(seqs, []item{a, b, c, a})
					}
				}
			}
		}
	}
	exe, _ := os.Executable()
	ch := make(chan []item)
	var mu sync.Mutex
	var wg sync.WaitGroup
	res.Exhaustive = true
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for q := range ch {
				var ss []string
				var h []int
				var names []string
				for _, i := range q {
					ss = append(ss, fmt.Sprintf("%d,%d", i.kind, i.nli))
					h = append(h, i.kind, i.nli)
					names = append(names, c18show(i.kind, i.nli))
				}
				cmd := exec.Command(exe)
				cmd.Env = append(os.Environ(), "VERIF_C18_PROBE="+strings.Join(ss, ";"))
				out, _ := cmd.CombinedOutput()
				code := cmd.ProcessState.ExitCode()
				mu.Lock()
				res.Leaves++
				res.Ops += int64(len(q))
				r.Set.AddState(core.HashInts(h...))
				if code != 43 && len(res.Viol) < 5 {
					m := strings.TrimSpace(string(out))
					if len(m) > 2000 {
						m = m[:2000]
					}
					res.Viol = append(res.Viol, core.Violation{Prop: r.Prop, Sub: "first-use", Msg: "in a fresh process: " + strings.Join(names, ", ") + ": " + m,
						Log: []string{"VERIF_C18_PROBE=" + strings.Join(ss, ";")}})
				}
				if len(res.Samples) < 3 {
					res.Samples = append(res.Samples, []string{"fresh process: " + strings.Join(names, ", ")})
				}
				mu.Unlock()
			}
		}()
	}
	for _, q := range seqs {
		if time.Now().After(r.Deadline) {
			res.Exhaustive = false
			break
		}
		ch <- q
	}
	close(ch)
	wg.Wait()
	res.Wall = time.Since(start).Seconds()
	return
}
