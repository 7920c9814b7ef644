//go:build go1.22

package zzsim

import (
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/lyraproj/hiera/zzyaml2json"
	"simkit/facade/simos"
	"simkit/simrt"
	"simkit/world"
)

func init() {
	scenarios[`C25`] = &Scenario{Gen: genC25, Run: runC25, Shrink: shrinkC25,
		Rule: `a case is a YAML document (block and flow style, all scalar styles, tags, anchors, aliases, merge keys, comments, markers, sometimes followed by another document or by what is not YAML) on the standard input of the program, which arrives in pieces of any size and may fail after any number of bytes, and an output that may be full after any number of bytes; non-trivial when input or output failed`}
}

// YNode is a node of a YAML document: its text in one or two styles, and what it means.
type YNode struct {
	Kind   string   `json:"kind"` // leaf, map, seq, alias
	Y      string   `json:"y,omitempty"`
	Block  []string `json:"block,omitempty"` // the lines of a block scalar, the first is its header
	J      string   `json:"j,omitempty"`     // the JSON of a leaf, or of the node that is referred to
	Keys   []string `json:"keys,omitempty"`  // pairs: text and meaning
	Kids   []*YNode `json:"kids,omitempty"`
	Flow   bool     `json:"flow,omitempty"`
	Wide   bool     `json:"wide,omitempty"`
	Anchor string   `json:"anchor,omitempty"`
	Merge  []string `json:"merge,omitempty"`  // the name of an anchor of a map,
	Merged string   `json:"merged,omitempty"` // and the JSON of that map
	Bad    string   `json:"bad,omitempty"`    // text that is not YAML, or not JSON
	Note   string   `json:"note,omitempty"`
}

type ygen struct {
	*Gen
	anchors []*YNode
	odd     string
}

func jstr(s string) string {
	bs, _ := json.Marshal(s)
	return string(bs)
}

func (g *ygen) leaf() *YNode {
	t := g.Tag(`v`)
	n := &YNode{Kind: `leaf`}
	switch g.Intn(26) {
	case 0:
		n.Y, n.J = g.Pick(`~`, `null`, `Null`, `NULL`, `!!null ''`), `null`
	case 1:
		n.Y = g.Pick(`true`, `True`, `TRUE`, `false`, `False`)
		n.J = strings.ToLower(n.Y)
	case 2:
		i := itoa(g.Intn(100000))
		n.Y, n.J = i, i
	case 3:
		i := g.Pick(`-1`, `0`, `9007199254740993`, `-9007199254740995`, `9223372036854775807`, `-9223372036854775808`, `18446744073709551615`, `4294967296`)
		n.Y, n.J = i, i
	case 4:
		n.Y = g.Pick(`0x1F`, `0o17`, `0b101`, `+12`)
		n.J = map[string]string{`0x1F`: `31`, `0o17`: `15`, `0b101`: `5`, `+12`: `12`}[n.Y]
	case 5:
		n.Y = g.Pick(`1.5`, `-0.25`, `1e3`, `6.02e23`, `1.0`, `1e-9`, `3.141592653589793`, `1e300`)
		n.J = n.Y
	case 6:
		n.Y, n.J = t, jstr(t)
	case 7:
		n.Y, n.J = t+` and some words`, jstr(t+` and some words`)
	case 8:
		n.Y, n.J = `'it''s `+t+`: #1'`, jstr(`it's `+t+`: #1`)
	case 9:
		n.Y, n.J = `"tab\t quote\" nl\n nul\0 bell\a uni\u00e9 \U0001F600 `+t+`"`, jstr("tab\t quote\" nl\n nul\x00 bell\a uni\u00e9 \U0001F600 "+t)
	case 10:
		n.Y, n.J = `日本 `+t, jstr(`日本 `+t)
	case 11:
		n.Y, n.J = g.Pick(`''`, `""`), `""`
	case 12:
		n.Y = g.Pick(`'5'`, `"5"`, `!!str 5`)
		n.J = `"5"`
	case 13:
		n.Y, n.J = `'true'`, `"true"`
	case 14:
		n.Y, n.J = `"`+t+`\nsecond\n"`, jstr(t+"\nsecond\n")
		n.Block = []string{`|`, t, `second`}
	case 15:
		n.Y, n.J = `"`+t+`\n\n  indented\nlast"`, jstr(t+"\n\n  indented\nlast")
		n.Block = []string{`|-`, t, ``, `  indented`, `last`}
	case 16:
		n.Y, n.J = `"`+t+` folded\nnext\n"`, jstr(t+" folded\nnext\n")
		n.Block = []string{`>`, t, `folded`, ``, `next`}
	case 17:
		n.Y, n.J = `"`+t+`\n\n\n"`, jstr(t+"\n\n\n")
		n.Block = []string{`|+`, t, ``, ``}
	case 18:
		n.Y, n.J = `"<`+t+`>&amp; %{x}"`, jstr(`<`+t+`>&amp; %{x}`)
	case 19:
		w := strings.TrimSpace(strings.Repeat(t+` `, 1+g.Intn(300)))
		n.Y, n.J = w, jstr(w)
	case 20:
		n.Y, n.J = `"a\
  b `+t+`"`, jstr(`ab `+t)
		n.Y = `"a b ` + t + `"`
		n.J = jstr(`a b ` + t)
	case 21:
		n.Y = g.Pick(`!!int "5"`, `!!int 5`)
		n.J = `5`
	case 22:
		n.Y, n.J = g.Pick(`yes`, `off`, `y`), ``
		n.J = jstr(n.Y)
	case 23:
		n.Y, n.J = `C:\`+t, jstr(`C:\`+t)
	case 24:
		n.Y, n.J = `"\u2028\ufffd\x7f`+t+`"`, jstr("\u2028\ufffd\x7f"+t)
	case 25:
		n.Y, n.J = `!!float 2`, `2.0`
	}
	return n
}

func (g *ygen) node(depth int, flow bool) *YNode {
	if len(g.anchors) > 0 && g.P(0.08) {
		a := g.anchors[g.Intn(len(g.anchors))]
		return &YNode{Kind: `alias`, Y: a.Anchor, J: a.J}
	}
	var n *YNode
	before := g.anchors
	switch k := g.Intn(10); {
	case depth == 0 || k < 3:
		n = g.leaf()
	case k < 7:
		n = &YNode{Kind: `map`, Flow: flow || g.P(0.25), Wide: g.P(0.2)}
		for i, c := 0, g.Intn(5); i < c; i++ {
			t := g.Tag(`k`)
			ks := [][2]string{{t, t}, {t, t}, {t, t}, {`'` + t + ` x'`, t + ` x`}, {`"` + t + `\t"`, t + "\t"}, {`"` + itoa(i) + `"`, itoa(i)}, {`'true'`, `true`}, {`日` + t, `日` + t}, {`''`, ``}, {t + ` y`, t + ` y`}}
			kk := ks[g.Intn(len(ks))]
			if n.has(kk[1]) {
				continue
			}
			n.Keys = append(n.Keys, kk[0], kk[1])
			n.Kids = append(n.Kids, g.node(depth-1, n.Flow))
		}
		for _, a := range before {
			if a.Kind == `map` && g.P(0.1) {
				n.Merge, n.Merged = []string{a.Anchor}, a.J
			}
		}
	default:
		n = &YNode{Kind: `seq`, Flow: flow || g.P(0.25), Wide: g.P(0.2)}
		for i, c := 0, g.Intn(5); i < c; i++ {
			n.Kids = append(n.Kids, g.node(depth-1, n.Flow))
		}
	}
	if g.P(0.1) {
		n.Note = ` # ` + g.Tag(`note`)
	}
	if g.P(0.08) {
		n.Anchor = strings.Replace(g.Tag(`a`), `~`, ``, -1)
		if n.Kind != `leaf` {
			n.J = n.json()
		}
		g.anchors = append(g.anchors, n)
	}
	return n
}

func (n *YNode) has(k string) bool {
	for i := 1; i < len(n.Keys); i += 2 {
		if n.Keys[i] == k {
			return true
		}
	}
	return false
}

// json is what the document means.
func (n *YNode) json() string {
	switch n.Kind {
	case `map`:
		var ps []string
		for i, k := range n.Kids {
			ps = append(ps, jstr(n.Keys[2*i+1])+`:`+k.json())
		}
		if k, ok := badKeys[n.Bad]; ok {
			ps = append(ps, k)
		}
		if n.Merged != `` {
			m := map[string]json.RawMessage{}
			_ = json.Unmarshal([]byte(n.Merged), &m)
			var ks []string
			for k := range m {
				if !n.has(k) {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			for _, k := range ks {
				ps = append(ps, jstr(k)+`:`+string(m[k]))
			}
		}
		return `{` + strings.Join(ps, `,`) + `}`
	case `seq`:
		var es []string
		for _, k := range n.Kids {
			es = append(es, k.json())
		}
		if k, ok := badKeys[n.Bad]; ok {
			es = append(es, k)
		}
		return `[` + strings.Join(es, `,`) + `]`
	}
	if k, ok := badKeys[n.Bad]; ok {
		return k
	}
	return n.J
}

var badKeys = map[string]string{`5: five`: `"5":"five"`, `true: t`: `"true":"t"`, `1.5: f`: `"1.5":"f"`, `q: {1: 2}`: `"q":{"1":2}`, `{5: five}`: `{"5":"five"}`}

// keyed tells if all that is bad about the document are keys that are not strings.
func (n *YNode) keyed() bool {
	if n.Bad != `` && badKeys[n.Bad] == `` {
		return false
	}
	for _, k := range n.Kids {
		if !k.keyed() {
			return false
		}
	}
	return true
}

// bad tells if the document holds something that is not YAML or has no JSON.
func (n *YNode) bad() bool {
	if n.Bad != `` {
		return true
	}
	for _, k := range n.Kids {
		if k.bad() {
			return true
		}
	}
	return false
}

func (n *YNode) flow() string {
	a := ``
	if n.Anchor != `` {
		a = `&` + n.Anchor + ` `
	}
	var es []string
	switch n.Kind {
	case `alias`:
		return `*` + n.Y + ` `
	case `map`:
		if n.Merge != nil {
			es = append(es, `<<: *`+n.Merge[0]+` `)
		}
		for i, k := range n.Kids {
			es = append(es, n.Keys[2*i]+`: `+k.flow())
		}
		if n.Bad != `` {
			es = append(es, n.Bad)
		}
		return a + `{` + strings.Join(es, n.sep()) + `}`
	case `seq`:
		for _, k := range n.Kids {
			es = append(es, k.flow())
		}
		if n.Bad != `` {
			es = append(es, n.Bad)
		}
		return a + `[` + strings.Join(es, n.sep()) + `]`
	}
	return a + n.Y
}

func (n *YNode) sep() string {
	if n.Wide {
		return " , "
	}
	return `, `
}

// value writes the node behind a key, an indicator or the start of the document.
func (n *YNode) value(b *strings.Builder, ind string, top, dash bool) {
	a := ``
	if n.Anchor != `` {
		a = ` &` + n.Anchor
	}
	empty := len(n.Kids) == 0 && n.Merge == nil && n.Bad == ``
	switch {
	case n.Kind == `leaf` && n.Block != nil:
		b.WriteString(a + ` ` + n.Block[0] + n.Note + "\n")
		for _, l := range n.Block[1:] {
			if l != `` {
				b.WriteString(ind + ` `)
			}
			b.WriteString(l + "\n")
		}
	case n.Kind == `leaf` || n.Kind == `alias` || n.Flow || empty:
		b.WriteString(` ` + n.flow() + n.Note + "\n")
	case n.Kind == `map`:
		first := ind
		if dash && a == `` && n.Note == `` && !n.Wide {
			first = ` `
		} else if !top || a != `` || n.Note != `` {
			b.WriteString(a + n.Note + "\n")
		}
		line := func() {
			b.WriteString(first)
			first = ind
		}
		if n.Merge != nil {
			line()
			b.WriteString(`<<: *` + n.Merge[0] + "\n")
		}
		for i, k := range n.Kids {
			line()
			b.WriteString(n.Keys[2*i] + `:`)
			k.value(b, ind+`  `, false, false)
		}
		if n.Bad != `` {
			line()
			b.WriteString(n.Bad + "\n")
		}
	default:
		first := ind
		if dash && a == `` && n.Note == `` && !n.Wide {
			first = ` `
		} else if !top || a != `` || n.Note != `` {
			b.WriteString(a + n.Note + "\n")
		}
		for _, k := range n.Kids {
			b.WriteString(first + `-`)
			first = ind
			k.value(b, ind+`  `, false, true)
		}
		if n.Bad != `` {
			b.WriteString(first + `- ` + n.Bad + "\n")
		}
	}
}

// text is the document.
func (s *Spec) yaml() string {
	var b strings.Builder
	if s.Kind == `empty` {
		return s.S[`raw`]
	}
	b.WriteString(s.S[`before`])
	s.Doc.value(&b, ``, true, false)
	b.WriteString(s.S[`after`])
	b.WriteString(s.S[`rest`])
	t := b.String()
	if s.S[`eol`] == `cut` {
		t = strings.TrimSuffix(t, "\n")
	}
	return t
}

func genC25(gg *Gen) *Spec {
	g := &ygen{Gen: gg}
	s := &Spec{Policy: g.Policy(), MaxSteps: 6000000, S: map[string]string{}}
	if g.P(0.03) {
		s.Kind = `empty`
		s.S[`raw`] = g.Pick(``, "\n", "# nothing\n", "---\n", "--- ~\n")
	} else {
		s.Doc = g.node(4, false)
		for s.Doc.Kind == `alias` {
			s.Doc = g.node(4, false)
		}
		s.S[`before`] = g.Pick(``, ``, ``, "---\n", "# a document\n", "%YAML 1.1\n---\n", "# one\n---\n# two\n")
		s.S[`after`] = g.Pick(``, ``, ``, "...\n", "# the end\n", "\n\n")
		if s.S[`after`] == "\n\n" && strings.Contains(s.yaml(), `|+`) {
			s.S[`after`] = ``
		}
		if s.S[`after`] == `` && g.P(0.2) && !strings.ContainsAny(s.yaml(), `|>`) {
			s.S[`eol`] = `cut`
		}
		if s.S[`before`] == `` && s.Doc.Note != `` && s.Doc.Kind != `leaf` {
			s.Doc.Note = ``
		}
		if g.P(0.1) {
			g.spoil(s.Doc)
			s.Doc.refresh(map[string]string{})
		}
		if s.S[`eol`] == `` && g.P(0.06) {
			// what follows the document: another one, or what is not YAML
			s.S[`after`] = g.Pick(``, "...\n")
			s.S[`rest`] = g.Pick("---\nmore: 1\n", "---\n- more\n", "--- 5\n", "---\n", "---\nx: [\n", "---\n---\n", "--- {}\n...\n--- {}\n", "# and\n--- more # c\n")
			if s.S[`after`] != `` && g.P(0.5) {
				s.S[`rest`] = g.Pick("}\n", "more: [\n", "a: 1\n", "- x\n", "]", "\x01\n", "more\n")
			}
		}
	}
	switch g.Intn(5) {
	case 0, 1:
		n := len(s.yaml())
		s.Faults = append(s.Faults, &world.Fault{Op: `read`, Path: `-`, Kind: g.Pick(`EIO`, `EIO`, `EBADF`, `EISDIR`), Off: g.Intn(n + 1)})
	case 2, 3:
		n := 1
		if s.Doc != nil {
			n = len(s.Doc.json()) + 1
		}
		f := &world.Fault{Op: `write`, Path: `/dev/stdout`, Kind: g.Pick(`ENOSPC`, `EIO`)}
		if g.P(0.8) {
			f.Off = 1 + g.Intn(n)
		} else {
			f.Nth = 1
			if g.P(0.5) {
				f.Ms = 1 + g.Intn(6)
			}
		}
		s.Faults = append(s.Faults, f)
	}
	return s
}

// refresh makes the aliases and merges mean what the nodes that they refer to now mean.
func (n *YNode) refresh(means map[string]string) {
	if n.Merge != nil {
		if j, ok := means[n.Merge[0]]; ok {
			n.Merged = j
		}
	}
	for _, k := range n.Kids {
		k.refresh(means)
	}
	if n.Kind == `alias` {
		if j, ok := means[n.Y]; ok {
			n.J = j
		}
	}
	if n.Anchor != `` {
		means[n.Anchor] = n.json()
	}
}

// spoil puts something into the document that is not YAML, or not JSON.
func (g *ygen) spoil(d *YNode) {
	n := d
	for len(n.Kids) > 0 && g.P(0.7) {
		n = n.Kids[g.Intn(len(n.Kids))]
	}
	switch n.Kind {
	case `map`:
		n.Bad = g.Pick(`5: five`, `true: t`, `~: n`, `1.5: f`, `x: *nowhere`, `x: .nan`, `x: "open`, `x: [1, 2`, `[1, 2]: x`, `{a: b}: x`, `x: .inf`, `q: {1: 2}`)
	case `seq`:
		n.Bad = g.Pick(`{5: five}`, `{~: n}`, `*nowhere`, `.nan`, `"open`, `[1, 2`, `{[1, 2]: x}`, `-.inf`)
	case `leaf`:
		n.Block, n.Anchor = nil, ``
		n.Y = g.Pick(`.nan`, `.inf`, `"open`, `[1, 2`, `*nowhere`, `{5: five}`)
		n.Bad = n.Y
	}
}

// sameJSON compares two JSON texts, numbers exactly.
func sameJSON(a, b string) (bool, error) {
	read := func(s string) (v interface{}, err error) {
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		if err = d.Decode(&v); err == nil {
			var more interface{}
			if e := d.Decode(&more); e != io.EOF {
				err = fmt.Errorf(`there is more`)
			}
		}
		return
	}
	v, err := read(a)
	if err != nil {
		return false, err
	}
	w, err := read(b)
	if err != nil {
		return false, err
	}
	return equalJSON(v, w), nil
}

func equalJSON(a, b interface{}) bool {
	switch a := a.(type) {
	case map[string]interface{}:
		m, ok := b.(map[string]interface{})
		if !ok || len(m) != len(a) {
			return false
		}
		for k, v := range a {
			w, ok := m[k]
			if !ok || !equalJSON(v, w) {
				return false
			}
		}
		return true
	case []interface{}:
		s, ok := b.([]interface{})
		if !ok || len(s) != len(a) {
			return false
		}
		for i, v := range a {
			if !equalJSON(v, s[i]) {
				return false
			}
		}
		return true
	case json.Number:
		n, ok := b.(json.Number)
		if !ok {
			return false
		}
		x, ok1 := new(big.Rat).SetString(string(a))
		y, ok2 := new(big.Rat).SetString(string(n))
		return ok1 && ok2 && x.Cmp(y) == 0
	}
	return a == b
}

func runC25(r *Run) {
	s := r.Spec
	want := `null`
	bad := false
	if s.Doc != nil {
		want, bad = s.Doc.json(), s.Doc.bad() || s.S[`rest`] != ``
	}
	text := s.yaml()
	r.Main(func(x *Exec) {
		x.Install(true)
		x.W.Stdin.Data = []byte(text)
		x.W.Stdout, x.W.Stderr = nil, nil
		crash, crashed := ``, false
		t := simrt.GoSys(`main`, func() {
			simos.Args = []string{`yaml2json`}
			crash, crashed = Caught(zzyaml2json.Main)
		})
		if !x.WaitFor(10*time.Minute, t) {
			x.Fail(`stall`, `the conversion does not end: %s`, x.S.Blocked())
		}
		failed := crashed || x.W.ExitCode != nil && *x.W.ExitCode != 0
		why := string(x.W.Stderr) + crash
		out := string(x.W.Stdout)
		fired := len(x.W.Fired) > 0
		r.A.Nontriv = fired || bad
		if failed {
			if !fired && !bad {
				x.Fail(`spurious`, `the conversion of %q fails with %q although nothing is wrong with it`, text, why)
			}
			return
		}
		if fired {
			x.Fail(`unreported`, `the conversion of %q reports success with %q although %s failed`, text, out, x.W.Fired[0].Op)
		}
		if bad {
			// keys that are not strings have no equal in JSON; their text is accepted for them, dropping them is not
			if same, err := sameJSON(out, want); s.S[`rest`] != `` || !s.Doc.keyed() || err != nil || !same {
				x.Fail(`accepted`, `the conversion of %q reports success with %q`, text, out)
			}
			return
		}
		if same, err := sameJSON(out, want); err != nil {
			x.Fail(`output`, `the conversion of %q reports success and writes %q: %s`, text, out, err)
		} else if !same {
			x.Fail(`changed`, `the conversion of %q gives %q, but the data is %s`, text, out, want)
		}
	})
}

func shrinkC25(s *Spec) (out []*Spec) {
	if s.Doc == nil {
		return
	}
	for _, k := range []string{`before`, `after`, `eol`, `rest`} {
		if s.S[k] != `` {
			c := s.Clone()
			delete(c.S, k)
			out = append(out, c)
		}
	}
	// referred is what something refers to
	referred := map[string]bool{}
	var refs func(n *YNode)
	refs = func(n *YNode) {
		if n.Kind == `alias` {
			referred[n.Y] = true
		}
		for _, m := range n.Merge {
			referred[m] = true
		}
		for _, k := range n.Kids {
			refs(k)
		}
	}
	refs(s.Doc)
	var anchored func(n *YNode) bool
	anchored = func(n *YNode) bool {
		if referred[n.Anchor] && n.Anchor != `` {
			return true
		}
		for _, k := range n.Kids {
			if anchored(k) {
				return true
			}
		}
		return false
	}
	at := func(d *YNode, p []int) *YNode {
		for _, i := range p {
			d = d.Kids[i]
		}
		return d
	}
	var walk func(n *YNode, p []int, inside bool)
	walk = func(n *YNode, p []int, inside bool) {
		inside = inside || referred[n.Anchor] && n.Anchor != ``
		try := func(f func(n *YNode)) {
			c := s.Clone()
			f(at(c.Doc, p))
			out = append(out, c)
		}
		if !inside {
			for i := range n.Kids {
				i := i
				if anchored(n.Kids[i]) {
					continue
				}
				try(func(n *YNode) {
					n.Kids = append(n.Kids[:i:i], n.Kids[i+1:]...)
					if n.Kind == `map` {
						n.Keys = append(n.Keys[:2*i:2*i], n.Keys[2*i+2:]...)
					}
				})
			}
			if n.Merge != nil {
				try(func(n *YNode) { n.Merge, n.Merged = nil, `` })
			}
		}
		if n.Note != `` {
			try(func(n *YNode) { n.Note = `` })
		}
		if n.Anchor != `` && !referred[n.Anchor] {
			try(func(n *YNode) { n.Anchor = `` })
		}
		if n.Block != nil {
			try(func(n *YNode) { n.Block = nil })
		}
		if n.Wide {
			try(func(n *YNode) { n.Wide = false })
		}
		for i, k := range n.Kids {
			walk(k, append(append([]int{}, p...), i), inside)
		}
	}
	walk(s.Doc, nil, false)
	return
}
