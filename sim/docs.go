package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/text/unicode/norm"
)

// Field types as stored in the index.
const (
	tString  = 0
	tFloat   = 3
	tObject  = 4
	tArray   = 5
	tBool    = 6
	tNull    = 7
	tTrigram = 8
	tBigram  = 9
	tUnigram = 10
)

var gramSize = map[int]int{tTrigram: 3, tBigram: 2, tUnigram: 1}

func widthOf(t int) int {
	switch t {
	case tBool:
		return 2
	case tNull:
		return 1
	case tFloat:
		return 9
	case tTrigram:
		return 4
	case tBigram:
		return 3
	case tUnigram:
		return 2
	}
	return 0
}

// Fld is one member of a JSON object, with the text it is rendered as.
type Fld struct {
	Key  string    `json:"key"`
	KR   string    `json:"kr"` // key as rendered, with quotes
	W    [4]string `json:"w"`  // whitespace before key, before colon, after colon, after value
	Kind string    `json:"kind"`
	Raw  string    `json:"raw,omitempty"`
	Str  string    `json:"str,omitempty"`
	Sub  []*Fld    `json:"sub,omitempty"`
}

type Cell struct {
	V   string `json:"v"`
	Raw string `json:"raw"`
}

// Rec is one line of a data file.
type Rec struct {
	F      []*Fld  `json:"f,omitempty"`
	Pre    string  `json:"pre,omitempty"`
	Tail   string  `json:"tail,omitempty"`
	Post   string  `json:"post,omitempty"`
	Cells  []*Cell `json:"cells,omitempty"`
	Header bool    `json:"header,omitempty"`
	CSV    bool    `json:"csv,omitempty"`
	Bad    string  `json:"bad,omitempty"` // a malformed line, literally
	IsBad  bool    `json:"isbad,omitempty"`
}

// Entry is one expected or observed entry of an index tree.
type Entry struct {
	Field string
	Type  int
	Val   string
	// byte range of the value (offset 0, length 0 for grams)
	Off, Len uint64
	// byte range of the record
	ROff, RLen uint64
}

func (e Entry) String() string {
	return fmt.Sprintf("{field %q type %d value %q at %d+%d record %d+%d}", e.Field, e.Type, e.Val, e.Off, e.Len, e.ROff, e.RLen)
}

// indexKey names one index.
type indexKey struct {
	Field string
	Type  int
}

// Model is what an index must contain.
type Model struct {
	Entries map[indexKey][]Entry
	Total   map[indexKey]uint64 // expected TotalFieldValueLength except the part that depends on ranges
	Count   uint64
	Read    uint64
	CSV     bool
}

func NewModel() *Model {
	return &Model{Entries: map[indexKey][]Entry{}, Total: map[indexKey]uint64{}}
}

// topPath is no field name: the path above the members of a record.
const topPath = "\x00\x00(record)"

// renderFields writes the members of an object and reports entries relative to
// the beginning of the record.
func renderFields(b *strings.Builder, fs []*Fld, path string, search map[string]bool, emit func(Entry), touch func(indexKey, uint64)) {
	for i, f := range fs {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(f.W[0])
		b.WriteString(f.KR)
		b.WriteString(f.W[1])
		b.WriteByte(':')
		b.WriteString(f.W[2])
		name := f.Key
		if path != topPath {
			name = path + "." + f.Key
		}
		off := uint64(b.Len())
		switch f.Kind {
		case "o":
			touch(indexKey{name, tObject}, 0)
			b.WriteByte('{')
			renderFields(b, f.Sub, name, search, emit, touch)
			b.WriteByte('}')
		case "a":
			touch(indexKey{name, tArray}, 0)
			b.WriteString(f.Raw)
		case "s":
			b.WriteString(f.Raw)
			touch(indexKey{name, tString}, 0)
			emit(Entry{Field: name, Type: tString, Val: f.Str, Off: off, Len: uint64(len(f.Raw))})
			if search[name] {
				for _, t := range []int{tUnigram, tBigram, tTrigram} {
					touch(indexKey{name, t}, 0)
					for _, g := range refGrams(f.Str, gramSize[t]) {
						touch(indexKey{name, t}, uint64(g.length))
						emit(Entry{Field: name, Type: t, Val: g.word})
					}
				}
			}
		case "n":
			b.WriteString(f.Raw)
			v, err := strconv.ParseFloat(f.Raw, 64)
			if err != nil {
				panic("generator produced a bad number " + f.Raw)
			}
			touch(indexKey{name, tFloat}, 0)
			emit(Entry{Field: name, Type: tFloat, Val: floatKey(v), Off: off, Len: uint64(len(f.Raw))})
		case "b":
			b.WriteString(f.Raw)
			v := "\x00"
			if f.Raw == "true" {
				v = "\x01"
			}
			touch(indexKey{name, tBool}, 1)
			emit(Entry{Field: name, Type: tBool, Val: v, Off: off, Len: uint64(len(f.Raw))})
		case "z":
			b.WriteString("null")
			touch(indexKey{name, tNull}, 0)
			emit(Entry{Field: name, Type: tNull, Val: "", Off: off, Len: 4})
		}
		b.WriteString(f.W[3])
	}
}

func floatKey(v float64) string {
	var x [8]byte
	binary.BigEndian.PutUint64(x[:], math.Float64bits(v))
	return string(x[:])
}

// Render returns the line (without newline) and feeds the model callbacks with
// entries relative to the beginning of the line.
func (r *Rec) Render(headers []string, search map[string]bool, emit func(Entry), touch func(indexKey, uint64)) string {
	if r.IsBad {
		return r.Bad
	}
	var b strings.Builder
	if r.CSV {
		for i, c := range r.Cells {
			if i > 0 {
				b.WriteByte(',')
			}
			off := uint64(b.Len())
			b.WriteString(c.Raw)
			if !r.Header && i < len(headers) {
				t, v := inferCell(c.V)
				touch(indexKey{headers[i], t}, 0)
				emit(Entry{Field: headers[i], Type: t, Val: v, Off: off, Len: uint64(len(c.Raw))})
			}
		}
		b.WriteString(r.Post)
		return b.String()
	}
	b.WriteString(r.Pre)
	b.WriteByte('{')
	renderFields(&b, r.F, topPath, search, emit, touch)
	b.WriteString(r.Tail)
	b.WriteByte('}')
	b.WriteString(r.Post)
	return b.String()
}

func inferCell(s string) (int, string) {
	if s == "" {
		return tNull, ""
	}
	if i, err := strconv.Atoi(s); err == nil {
		return tFloat, floatKey(float64(i)) // so that "-0" is 0
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		return tFloat, floatKey(f)
	}
	switch s {
	case "t", "T", "TRUE", "true", "True":
		return tBool, "\x01"
	case "f", "F", "FALSE", "false", "False":
		return tBool, "\x00"
	}
	return tString, s
}

type gram struct {
	word   string
	length int
}

// refGrams is an independent statement of the tokenizer: words are maximal runs
// of ASCII letters and digits, not broken by other characters except whitespace,
// after compatibility decomposition; grams never cross words.
func refGrams(s string, n int) []gram {
	type ch struct {
		c   byte
		pos int
	}
	var out []gram
	var word []ch
	flush := func() {
		for i := 0; i+n <= len(word); i++ {
			w := make([]byte, n)
			for j := 0; j < n; j++ {
				w[j] = word[i+j].c
			}
			out = append(out, gram{strings.ToLower(string(w)), word[i+n-1].pos - word[i].pos + 1})
		}
		word = nil
	}
	pos := 0
	for _, r := range norm.NFKD.String(s) {
		if r < utf8.RuneSelf {
			switch {
			case r >= '0' && r <= '9', r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z':
				word = append(word, ch{byte(r), pos})
			case unicode.IsSpace(r):
				flush()
			}
		}
		pos++
	}
	flush()
	return out
}

// ---------------------------------------------------------------- generation

type docGen struct {
	r       *Rng
	csv     bool
	names   []string
	search  []string
	smap    map[string]bool
	kinds   []int // weights: s n b z a o
	strs    []string
	nums    []string
	ws      float64
	esc     float64
	depth   int
	maxF    int
	fresh   float64 // probability of a string outside of the pool
	strLen  int
	headers []string
	quote   float64
	ragged  float64
	crlf    bool
	deep    bool   // objects go deep
	x       *Rng   // choices that are few: what r draws does not depend on them
	long    string // the value of the first few search fields
	longs   int
	anyName int // how many records may have paths as long as names may be
	giant   int // length of the few records that are long
	giants  int
}

var alphabets = []string{
	"abc", "abcdefghijklmnopqrstuvwxyz0123456789 ", "aAbB  .,-_!", "éàüñçÅ aeiou", "日本語テキスト abc", "😀🎉👩 x", "ﬁlterＡＢＣ Kelvin K", "\t\n\"\\/<>&\u2028 ab", "\u0000\u0001\u001f\u007f ab", "#;'|@\\`%$ a1",
}

func (g *docGen) randString(max int) string {
	r := g.r
	a := []rune(pick(r, alphabets))
	if r.P(0.5) {
		a = []rune(alphabets[r.N(3)])
	}
	n := r.Skew(max + 1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(a[r.N(len(a))])
	}
	return b.String()
}

func (g *docGen) randNum() string {
	r := g.r
	switch r.N(9) {
	case 0:
		return strconv.Itoa(r.N(10))
	case 1:
		return strconv.Itoa(-r.N(1000))
	case 2:
		return strconv.Itoa(r.N(1 << 30))
	case 3:
		return strconv.FormatFloat((r.F()-0.5)*1e6, 'f', -1, 64)
	case 4:
		return fmt.Sprintf("%d.%de%d", r.N(10), r.N(100000), r.In(-30, 30))
	case 5:
		return pick(r, []string{"0", "-0", "1", "0.1", "1e308", "5e-324", "9007199254740993", "1E5", "-1e-7", "123456789012345678901234567890", "2.2250738585072014e-308", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "1.0", "-0.0", "0e5", "1e0", "1.7976931348623157e308", "-5e-324"})
	case 6:
		return strconv.FormatFloat(math.Float64frombits(r.U64()&^(3<<61)), 'g', -1, 64)
	case 7:
		return strconv.Itoa(r.N(100)) + "." + strconv.Itoa(r.N(10))
	}
	return strconv.Itoa(r.N(100))
}

func (g *docGen) jsonString(s string) string {
	r := g.r
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		must := c < 0x20 || c == '"' || c == '\\'
		if !must && !(g.esc > 0 && r.P(g.esc)) {
			b.WriteRune(c)
			continue
		}
		short := map[rune]string{'"': `\"`, '\\': `\\`, '/': `\/`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}[c]
		if short != "" && r.P(0.7) {
			b.WriteString(short)
		} else if c >= 0x10000 {
			c -= 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04X`, 0xd800+(c>>10), 0xdc00+(c&0x3ff))
		} else {
			fmt.Fprintf(&b, pick(r, []string{`\u%04x`, `\u%04X`}), c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (g *docGen) space() string {
	if g.ws == 0 || !g.r.P(g.ws) {
		return ""
	}
	return pick(g.r, []string{" ", "  ", "\t", " \t ", "\r"})
}

func newDocGen(r *Rng, csv bool) *docGen {
	g := &docGen{r: r, csv: csv, smap: map[string]bool{}, x: NewRng(mix(r.s ^ 0xd0c))}
	g.esc = pick(r, []float64{0, 0, 0.1, 0.5})
	g.ws = pick(r, []float64{0, 0, 0.1, 0.5, 1})
	g.depth = pick(r, []int{0, 0, 1, 2, 4})
	g.maxF = pick(r, []int{1, 2, 4, 8, 20})
	g.fresh = pick(r, []float64{0, 0.3, 1})
	g.strLen = pick(r, []int{4, 12, 40, 300})
	if r.P(0.02) {
		g.strLen = 6000
	}
	if r.P(0.01) {
		g.giant = r.In(60_000, 200_000)
		if r.P(0.08) {
			g.giant = r.In(1<<20-100, 1<<20+400_000)
		}
	}
	g.kinds = []int{r.N(5), r.N(5), r.N(3), r.N(3), r.N(2), r.N(3)}
	if r.P(0.3) {
		g.kinds = []int{0, 0, 0, 0, 0, 0}
		g.kinds[r.N(4)] = 1
	}
	if g.kinds[0]+g.kinds[1]+g.kinds[2]+g.kinds[3] == 0 {
		g.kinds[r.N(2)] = 1
	}
	if !csv && r.P(0.02) {
		g.deep = true
		g.depth = r.In(5, 16)
		g.kinds[5] = 8
	}
	nn := pick(r, []int{1, 2, 3, 6, 12, 40})
	if r.P(0.005) {
		nn = 300
	}
	seen := map[string]bool{}
	for i := 0; i < nn; i++ {
		n := ""
		switch {
		case r.P(0.02):
			n = strings.Repeat(pick(r, []string{"x", "ab", "é"}), r.In(40, 100)) // long, at most 200 bytes
			if r.P(0.3) {
				n = strings.Repeat("x", r.In(228, maxName)) // as long as names may be
			}
		case r.P(0.1):
			n = g.randString(12)
		default:
			n = pick(r, []string{"a", "b", "id", "name", "title", "price", "tags", "x", "y", "z", "value", "k"}) + pick(r, []string{"", "", "1", "2", "_3", "-4", " 5"})
			if nn > 40 {
				n += fmt.Sprint(r.N(100))
			}
		}
		if csv {
			n = strings.Map(func(c rune) rune {
				if c < 0x20 {
					return 'q'
				}
				return c
			}, n)
		}
		if len(n) > maxName {
			n = "long"
		}
		if !seen[n] {
			seen[n] = true
			g.names = append(g.names, n)
		}
	}
	if g.x.P(0.015) {
		// names of which one is as good as the other for whoever looks at a part
		n := pick(g.x, []int{8, 63, 64, 127, 128, 129, 200, 255 - 20, maxName}) - 1
		base := strings.Repeat(pick(g.x, []string{"n", "name-", "0123456789"}), n)[:n]
		g.names = append(g.names, base+"1", base+"2", "1"+base, "2"+base)
	}
	if g.deep {
		// there are many paths made of few names
		g.names = g.names[:min(len(g.names), 3)]
		g.maxF = min(g.maxF, 4)
		if g.x.P(0.4) {
			// as deep as the length of names allows
			g.anyName = g.x.In(1, 2)
			g.depth = pick(g.x, []int{20, 20, 34, 34, 66, 66, 117, 236})
			g.names = g.names[:0]
			for _, n := range []string{"", "a", "o", "é", "B"} {
				if g.x.P(0.4) || n == "a" {
					g.names = append(g.names, n)
				}
			}
			if g.depth > 117 {
				g.names = []string{""}
			}
			g.maxF = min(g.maxF, 2)
			g.kinds[5] = 2000
		}
	}
	if !csv && g.kinds[0] > 0 && r.P(0.5) {
		k := r.In(1, 2)
		for i := 0; i < k; i++ {
			n := pick(r, g.names)
			if !g.smap[n] {
				g.smap[n] = true
				g.search = append(g.search, n)
			}
		}
	}
	if len(g.search) > 0 {
		// every letter of a search field is three entries
		g.strLen = min(g.strLen, 300)
		if g.strLen > 100 {
			g.maxF = min(g.maxF, 4)
		}
	}
	for i, n := 0, r.In(1, 12); i < n; i++ {
		g.strs = append(g.strs, g.randString(g.strLen))
	}
	if len(g.search) > 0 && r.P(0.06) {
		// characters that decompose into more letters than they have bytes
		g.strs, g.fresh, g.maxF = nil, 0.02, min(g.maxF, 2)
		for i, n := 0, r.In(1, 2); i < n; i++ {
			g.strs = append(g.strs, strings.Repeat(pick(r, []string{"㎯", "㏂", "Ⅷ", "ǖ", "㎯ Ⅲ", "㍱㎯"}), r.In(4, 40)))
		}
	}
	if len(g.search) > 0 && g.x.P(0.03) {
		// the same letter more than 255 times
		g.longs = 2
		g.long = strings.Repeat(pick(g.x, []string{"a", "ab", "z "}), pick(g.x, []int{255, 256, 257, 300, 520}))
	}
	for i, n := 0, r.In(1, 12); i < n; i++ {
		g.nums = append(g.nums, g.randNum())
	}
	if csv {
		n := r.In(1, 6)
		for i := 0; i < n; i++ {
			if r.P(0.05) && i > 0 {
				g.headers = append(g.headers, g.headers[r.N(i)])
			} else if r.P(0.1) {
				g.headers = append(g.headers, pick(r, []string{"a,b", "price, net", `say "x"`, `"`, ",", " lead", "trail ", "a;b", "#no", "'q'", "1", "true", "A.b", "\ufeffid", "a\tb", "``", "a b"}))
			} else {
				g.headers = append(g.headers, pick(r, g.names))
			}
		}
		// a header row that is an empty line is no header row
		if len(g.headers) == 1 && g.headers[0] == "" {
			g.headers[0] = "only"
		}
		g.quote = pick(r, []float64{0, 0, 0.2, 1})
		g.ragged = pick(r, []float64{0, 0, 0.3})
		g.crlf = r.P(0.2)
	}
	return g
}

func (g *docGen) str() string {
	if g.r.P(g.fresh) {
		return g.randString(g.strLen)
	}
	return pick(g.r, g.strs)
}

func (g *docGen) num() string {
	if g.r.P(g.fresh) {
		return g.randNum()
	}
	return pick(g.r, g.nums)
}

// maxName is the length of the longest name of a field that has room.
const maxName = 236

func (g *docGen) fields(path string, depth int, n int) []*Fld {
	var out []*Fld
	r := g.r
	for i := 0; i < n; i++ {
		key := pick(r, g.names)
		f := &Fld{Key: key, KR: g.jsonString(key)}
		for i := range f.W {
			f.W[i] = g.space()
		}
		name := key
		if path != topPath {
			name = path + "." + key
		}
		k := []string{"s", "n", "b", "z", "a", "o"}[r.Weighted(g.kinds)]
		if k == "o" && (depth <= 0 || len(name) > 150 && g.anyName == 0) {
			k = "b"
		}
		if len(name) > maxName {
			continue
		}
		if g.smap[name] {
			k = "s"
		}
		f.Kind = k
		switch k {
		case "s":
			f.Str = g.str()
			if g.smap[name] && g.longs > 0 {
				g.longs--
				f.Str = g.long
			}
			f.Raw = g.jsonString(f.Str)
			if g.esc > 0 && !g.smap[name] && r.P(0.02) {
				// half of a surrogate pair stands for no character
				f.Str += "\uFFFD"
				f.Raw = f.Raw[:len(f.Raw)-1] + pick(r, []string{`\ud83d"`, `\uDE00"`})
			}
		case "n":
			f.Raw = g.num()
		case "b":
			f.Raw = pick(r, []string{"true", "false"})
		case "z":
			f.Raw = "null"
		case "a":
			if g.x.P(0.25) {
				f.Raw = g.array(pick(g.x, []int{1, 2, 3, 6}))
				break
			}
			if g.x.P(0.02) {
				n := pick(g.x, []int{20, 33, 100, 127, 128, 129, 200, 255, 256, 257, 600})
				f.Raw = strings.Repeat("[", n) + g.array(2) + strings.Repeat("]", n)
				break
			}
			f.Raw = pick(r, []string{"[]", "[1,2]", "[[1],[2,[3]]]", `[{"a":[1]},"]"]`, `[ "x" , null ]`, `[{},[{}]]`})
		case "o":
			n := r.N(3)
			if g.deep {
				n = 1
				if r.P(0.15) && (g.anyName == 0 || g.x.P(0.02)) {
					n = 2
				}
			}
			f.Sub = g.fields(name, depth-1, n)
		}
		out = append(out, f)
	}
	return out
}

// array returns an array of anything, with the characters that structure JSON in
// its strings as well.
func (g *docGen) array(depth int) string {
	x := g.x
	var b strings.Builder
	b.WriteByte('[')
	for i, n := 0, x.N(5); i < n; i++ {
		if i > 0 {
			b.WriteString(pick(x, []string{",", ", ", ",\t"}))
		}
		b.WriteString(g.element(depth - 1))
	}
	b.WriteByte(']')
	return b.String()
}

func (g *docGen) element(depth int) string {
	x := g.x
	text := []string{`""`, `"a"`, `"]"`, `"["`, `"}"`, `"{"`, `"],["`, `"\""`, `"\\"`, `"a\nb"`, `":"`, `"日本"`, `"\u005d"`, `","`}
	k := x.N(7)
	switch {
	case k <= 1 && depth > 0:
		return g.array(depth)
	case k == 2 && depth > 0:
		var b strings.Builder
		b.WriteByte('{')
		for i, n := 0, x.N(4); i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(pick(x, text) + pick(x, []string{":", " : "}) + g.element(depth-1))
		}
		b.WriteByte('}')
		return b.String()
	case k == 3:
		return pick(x, []string{"0", "-1", "1.5e3", "12345678901234567890", "1e-7"})
	case k == 4:
		return pick(x, []string{"true", "false", "null"})
	}
	return pick(x, text)
}

func (g *docGen) Rec() *Rec {
	r := g.r
	if g.csv {
		rec := &Rec{CSV: true}
		n := len(g.headers)
		if r.P(g.ragged) {
			n = r.In(1, n)
		}
		for i := 0; i < n; i++ {
			rec.Cells = append(rec.Cells, g.cell())
		}
		if len(rec.Cells) == 1 && rec.Cells[0].Raw == "" {
			rec.Cells[0] = &Cell{V: "x", Raw: "x"} // an empty line is no row
		}
		if g.giant > 0 && g.giants < 3 && r.P(0.1) {
			i := r.N(len(rec.Cells))
			unit := pick(r, []string{"x", "word ", "é", "1"})
			v := strings.Repeat(unit, g.giant/len(unit)) + rec.Cells[i].V
			g.giants++
			rec.Cells[i] = &Cell{V: v, Raw: g.csvRaw(v, true)}
		}
		if g.crlf {
			rec.Post = "\r"
		}
		for i, c := range rec.Cells {
			// a carriage return is part of a cell unless the row ends there
			if c.Raw == c.V && c.V != "" && (g.crlf || i+1 < len(rec.Cells)) && g.x.P(0.01) {
				v := c.V + "\r"
				rec.Cells[i] = &Cell{V: v, Raw: v}
			}
		}
		return rec
	}
	rec := &Rec{Pre: g.space(), Tail: g.space(), Post: g.space()}
	rec.F = g.fields(topPath, g.depth, r.N(g.maxF+1))
	if g.anyName > 0 && len(rec.F) > 0 {
		if g.anyName--; g.anyName == 0 {
			g.depth, g.kinds[5] = 3, 2
		}
	}
	if g.giant > 0 && g.giants < 3 && r.P(0.1) {
		g.inflate(rec)
	}
	return rec
}

// inflate makes a record of tens of kilobytes.
func (g *docGen) inflate(rec *Rec) {
	r := g.r
	n := g.giant
	g.giants++
	switch {
	case r.P(0.3) || len(rec.F) == 0:
		rec.Tail += strings.Repeat(" ", n)
	default:
		f := pick(r, rec.F)
		switch {
		case f.Kind == "s" && !g.smap[f.Key]:
			unit := pick(r, []string{"x", "word ", "é", `"`, "日本"})
			f.Str = strings.Repeat(unit, n/len(unit)) + f.Str
			f.Raw = g.jsonString(f.Str)
		case f.Kind == "a":
			f.Raw = "[" + strings.Repeat("[1],", n/4) + "null]"
		case f.Kind == "n":
			f.Raw = "0." + strings.Repeat("0", n) + "1"
		default:
			f.W[2] += strings.Repeat(" ", n)
		}
	}
}

func (g *docGen) HeaderRec() *Rec {
	rec := &Rec{CSV: true, Header: true}
	for _, h := range g.headers {
		rec.Cells = append(rec.Cells, &Cell{V: h, Raw: g.csvRaw(h, g.r.P(g.quote))})
	}
	if g.crlf {
		rec.Post = "\r"
	}
	return rec
}

func (g *docGen) csvRaw(v string, quote bool) string {
	if quote || strings.ContainsAny(v, "\",\r") {
		return `"` + strings.ReplaceAll(v, `"`, `""`) + `"`
	}
	return v
}

func (g *docGen) cell() *Cell {
	r := g.r
	v := ""
	switch []string{"s", "n", "b", "z", "s", "n"}[r.Weighted(g.kinds)] {
	case "s":
		v = strings.Map(func(c rune) rune {
			if c == '\n' || c == '\r' || c == 0 {
				return 'n'
			}
			return c
		}, g.str())
		if r.P(0.05) {
			v = pick(r, []string{"#", "# ", ";", "//", "--", "=", "@", "'", "\ufeff", "%", "!"}) + v
		}
	case "n":
		v = g.num()
		if r.P(0.05) {
			v = pick(r, []string{"inf", "NaN", "+5", "007", "0x10", "1_000", "-Inf", "+Infinity", "nan", "1e400", "-1e400", "0x1p-2", ".5", "5.", "-.5", "+0", "-0.0", " 5", "5 ", "0b1", "0o7", "1e", "--1", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "1,5", "1e5f", "0x", "1__0"})
		}
	case "b":
		v = pick(r, []string{"true", "false", "t", "F", "TRUE", "False", "T", "f", "True", "FALSE", "tRUE", "fALSE", "yes", "null", "true ", "truE"})
	}
	return &Cell{V: v, Raw: g.csvRaw(v, r.P(g.quote))}
}

// Bad returns a malformed line.
func (g *docGen) Bad() *Rec {
	r := g.r
	if g.csv {
		switch r.N(4) {
		case 0:
			return &Rec{IsBad: true, CSV: true, Bad: strings.Repeat("1,", len(g.headers)) + "1"}
		case 1:
			return &Rec{IsBad: true, CSV: true, Bad: `1` + strings.Repeat(",x", r.N(len(g.headers))) + `"y`}
		case 2:
			return &Rec{IsBad: true, CSV: true, Bad: strings.Repeat("2,", r.N(len(g.headers))) + `"unclosed`}
		}
		return &Rec{IsBad: true, CSV: true, Bad: ""}
	}
	// a good record turned bad at its end, so that a prefix of it looks fine
	good := g.Rec()
	good.Post = ""
	nofn := func(Entry) {}
	text := good.Render(nil, g.smap, nofn, func(indexKey, uint64) {})
	open := strings.TrimRight(text[:len(text)-1], " \t\r")
	sep := ","
	if len(good.F) == 0 {
		sep = ""
	}
	name := g.jsonString(pick(r, g.names) + "q")
	bad := ""
	switch r.N(14) {
	case 12, 13:
		bad = strings.TrimRight(text, " \t\r") + pick(r, []string{"", " ", "\t"}) + pick(r, []string{"x", ",", "}", "]", "\x00", "null", `""`, "{}", `{"b":2}`, text, "\r}", "1", "{", "["})
	case 0:
		bad = text[:r.N(len(text))] // truncated
		if strings.TrimSpace(bad) == "" {
			bad = "{"
		}
	case 1:
		bad = open + sep + name + ":tru}"
	case 2:
		bad = open + sep + name + ":1e999}"
	case 3:
		bad = open + sep + name + ` "x"}`
	case 4:
		bad = open + sep + name + `:"x`
	case 5:
		bad = open + sep + name + `:[1,2}`
	case 6:
		bad = open + sep + name + `:{"a":1`
	case 7:
		bad = "[" + text + "]"
	case 8:
		bad = pick(r, []string{"", " ", "1", "null", `"str"`, "x"})
	case 9:
		if len(g.search) > 0 {
			bad = open + sep + g.jsonString(g.search[0]) + pick(r, []string{":1}", ":null}", ":[1]}", `:{"a":1}}`, ":true}"})
		} else {
			bad = open + sep + name + ":.}"
		}
	case 10:
		bad = open + sep + g.jsonString(strings.Repeat("n", r.In(237, 400))) + ":1}"
	case 11:
		bad = open + sep + `"o":{"p":{"q":1,}}}`
	}
	return &Rec{IsBad: true, Bad: bad}
}

// simpler returns simplified variants for minimisation.
func (r *Rec) simpler() []*Rec {
	var out []*Rec
	if r.IsBad {
		return nil
	}
	cp := func() *Rec { c := *r; return &c }
	if r.Pre+r.Tail+r.Post != "" {
		c := cp()
		c.Pre, c.Tail, c.Post = "", "", ""
		out = append(out, c)
	}
	if r.CSV {
		if len(r.Cells) > 1 && !r.Header {
			c := cp()
			c.Cells = r.Cells[:len(r.Cells)-1]
			out = append(out, c)
		}
		for i, cell := range r.Cells {
			if !r.Header && cell.Raw != "1" {
				c := cp()
				c.Cells = append([]*Cell(nil), r.Cells...)
				c.Cells[i] = &Cell{"1", "1"}
				out = append(out, c)
			}
		}
		return out
	}
	for _, fs := range simplerFields(r.F) {
		c := cp()
		c.F = fs
		out = append(out, c)
	}
	return out
}

func simplerFields(fs []*Fld) [][]*Fld {
	var out [][]*Fld
	for i := range fs {
		out = append(out, append(append([]*Fld(nil), fs[:i]...), fs[i+1:]...))
	}
	repl := func(i int, f Fld) {
		c := append([]*Fld(nil), fs...)
		c[i] = &f
		out = append(out, c)
	}
	for i, f := range fs {
		if f.W != [4]string{} {
			c := *f
			c.W = [4]string{}
			repl(i, c)
			for j := range f.W {
				if f.W[j] != "" {
					c := *f
					c.W[j] = ""
					repl(i, c)
				}
			}
		}
		switch f.Kind {
		case "s":
			if f.Str != "" {
				for _, s := range []string{"", f.Str[:len(f.Str)/2]} {
					if utf8.ValidString(s) {
						c := *f
						c.Str = s
						c.Raw = (&docGen{r: NewRng(0)}).jsonString(s)
						repl(i, c)
					}
				}
			}
		case "n":
			if f.Raw != "1" {
				c := *f
				c.Raw = "1"
				repl(i, c)
			}
		case "o":
			for _, sub := range simplerFields(f.Sub) {
				c := *f
				c.Sub = sub
				repl(i, c)
			}
		}
	}
	return out
}

func sortEntries(es []Entry) {
	sort.Slice(es, func(i, j int) bool { return entryLess(es[i], es[j]) })
}

func entryLess(a, b Entry) bool {
	if a.Val != b.Val {
		return a.Val < b.Val
	}
	if a.Off != b.Off {
		return a.Off < b.Off
	}
	if a.Len != b.Len {
		return a.Len < b.Len
	}
	if a.ROff != b.ROff {
		return a.ROff < b.ROff
	}
	return a.RLen < b.RLen
}
