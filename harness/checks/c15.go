package checks

import (
	"fmt"
	"regexp"
	"strings"
	"sync"

	"github.com/k0kubun/sqldef/schema"

	"verif.local/harness/engine"
	"verif.local/harness/gen"
	"verif.local/harness/sim"
)

var piece = regexp.MustCompile("'[^']*'|\"[^\"]*\"|`[^`]*`|[\\pL\\d_.]+|\\S")

func pieces(s string) []string { return piece.FindAllString(s, -1) }

// answer is what the planner says to one input.
type answer struct {
	Plan []string
	Err  string
	Fail *engine.Failure
}

var address = regexp.MustCompile(`0x[0-9a-f]{6,}`)

func ask(m schema.GeneratorMode, desired, current string) (a answer) {
	a.Fail = engine.Guard("the planner", func() {
		plan, err := schema.GenerateIdempotentDDLs(m, desired, current)
		a.Plan = plan
		if err != nil {
			a.Err = "error: " + err.Error()
		}
	})
	return
}

func (a answer) String() string {
	if a.Fail != nil {
		return a.Fail.Msg
	}
	if a.Err != "" { // but for addresses
		return address.ReplaceAllString(a.Err, "0x")
	}
	return fmt.Sprintf("plan of %d:\n%s", len(a.Plan), strings.Join(a.Plan, ";\n"))
}

// anyText writes a text that may or may not be a schema.
func anyText(t *engine.T, d sim.Dialect) string {
	switch t.N(6) {
	case 0, 1:
		return sentences(t, d)
	case 2, 3:
		return damage(t, goodText(t, d))
	case 4:
		return goodText(t, d)
	}
	return noise(t)
}

func goodText(t *engine.T, d sim.Dialect) string {
	f := gen.NewFile(t, d)
	var parts []string
	for i := t.Range(1, 4); i > 0; i-- {
		parts = append(parts, f.Text(f.Any().Toks))
	}
	return strings.Join(parts, ";\n")
}

var starts = []string{"create_statement", "create_statement", "create_statement", "alter_statement", "any_command"}

// sentences derives statements; most of the time only those that are accepted.
func sentences(t *engine.T, d sim.Dialect) string {
	strict := t.Chance(75)
	text := ""
	tries := 12
	for i := t.Range(1, 4); i > 0 && tries > 0; tries-- {
		s := sentence(t)
		next := s
		if text != "" {
			next = text + ";\n" + s
		}
		if strict {
			if a := ask(mode(d), next, ""); a.Fail == nil && a.Err != "" {
				continue
			}
		}
		text = next
		i--
	}
	return text
}

// nearby changes some statements, most of the time to accepted ones.
func nearby(t *engine.T, d sim.Dialect, text string) string {
	parts := strings.Split(text, ";\n")
	strict := t.Chance(75)
	for i, p := range parts {
		for tries := t.N(12); tries > 0; tries-- {
			parts[i] = strings.Join(spoil(t, pieces(p)), " ")
			if !strict {
				break
			}
			if a := ask(mode(d), "", strings.Join(parts, ";\n")); a.Err == "" {
				break
			}
			parts[i] = p
		}
	}
	return strings.Join(engine.Subset(t, parts, 85), ";\n")
}

func sentence(t *engine.T) string {
	{
		var toks []string
		switch t.N(8) {
		case 0, 1, 2:
			toks = append(toks, "create", "table", engine.Pick(t, []string{"t", "u", "v"}), "(")
			for k, n := 0, t.Range(1, 5); k < n; k++ {
				if k > 0 {
					toks = append(toks, ",")
				}
				toks = append(toks, gen.Sentence(t, engine.Pick(t, []string{"column_definition", "column_definition", "column_definition", "index_definition", "foreign_key_definition", "primary_key_definition", "unique_definition"}), t.Range(6, 12))...)
			}
			toks = append(toks, ")")
			toks = append(toks, gen.Sentence(t, "table_option_list", t.Range(2, 8))...)
		default:
			toks = gen.Sentence(t, engine.Pick(t, starts), t.Range(8, 20))
		}
		if t.Chance(10) {
			toks = spoil(t, toks)
		}
		return strings.Join(toks, " ")
	}
}

// spoil damages a token sequence.
func spoil(t *engine.T, toks []string) []string {
	toks = append([]string(nil), toks...)
	for i := t.Range(1, 3); i > 0 && len(toks) > 1; i-- {
		a, b := t.N(len(toks)), t.N(len(toks))
		switch t.N(6) {
		case 0:
			toks = append(toks[:a:a], toks[a+1:]...)
		case 1:
			toks = append(toks[:a:a], append([]string{toks[b]}, toks[a:]...)...)
		case 2:
			toks[a], toks[b] = toks[b], toks[a]
		case 3:
			toks[a] = toks[b]
		case 4:
			toks[a] = engine.Pick(t, gen.GrammarWords)
		case 5:
			toks[a] = engine.Pick(t, soup)
		}
	}
	return toks
}

// damage changes a text without regard to tokens.
func damage(t *engine.T, s string) string {
	if t.Bool() {
		return strings.Join(spoil(t, pieces(s)), " ")
	}
	b := []byte(s)
	for i := t.Range(1, 3); i > 0 && len(b) > 0; i-- {
		p := t.N(len(b))
		switch t.N(5) {
		case 0:
			b = b[:p]
		case 1:
			b[p] = byte(t.N(256))
		case 2:
			q := t.N(len(b))
			if q < p {
				p, q = q, p
			}
			b = append(b[:p:p], b[q:]...)
		case 3:
			b = append(b[:p:p], append([]byte(engine.Pick(t, odd)), b[p:]...)...)
		case 4:
			q := t.N(len(b))
			if q < p {
				p, q = q, p
			}
			b = append(b[:q:q], b[p:]...)
		}
	}
	return string(b)
}

var odd = []string{"'", "\"", "`", "[", "]", "(", ")", ";", ",", "--", "/*", "*/", "\\", "\x00", "\n", "#", "$$", "::", ":", "@", "@@", "?", "=", ".", "0x", "x'", "b'", "n'", "1e", "\xff", "é", "世", " ", "\ufeff", "/*!", "-", "<", "!", "|", "&", "^", "~", "%"}

func noise(t *engine.T) string {
	var sb strings.Builder
	switch t.N(4) {
	case 0: // bytes
		for i := t.N(40); i > 0; i-- {
			sb.WriteByte(byte(t.N(256)))
		}
	case 1: // marks
		for i := t.N(30); i > 0; i-- {
			if t.Bool() {
				sb.WriteString(engine.Pick(t, odd))
			} else {
				sb.WriteString(engine.Pick(t, gen.GrammarWords))
			}
			if t.Bool() {
				sb.WriteByte(' ')
			}
		}
	case 2: // words
		sb.WriteString(engine.Pick(t, []string{"", "create table t (", "create index i on t (", "create view v as ", "create policy p on t ", "create trigger t ", "alter table t add ", "set ", "select "}))
		for i := t.N(25); i > 0; i-- {
			if t.Chance(70) {
				sb.WriteString(engine.Pick(t, gen.GrammarWords))
			} else {
				sb.WriteString(engine.Pick(t, soup))
			}
			sb.WriteByte(' ')
		}
	case 3: // much of the same
		n := 1 << t.Range(3, 12)
		x := engine.Pick(t, []string{"(", "create table t (a int default (", "select (", "not ", "- ", "'", "/*", ";", "a.", "create view v as select * from (", "case when ", "a,", "[", "union select 1 "})
		head := engine.Pick(t, []string{"", "create view v as select ", "create table t ("})
		sb.WriteString(head)
		sb.WriteString(strings.Repeat(x, n))
		if t.Bool() {
			sb.WriteString("1")
			sb.WriteString(strings.Repeat(")", n))
		}
	}
	return sb.String()
}

// related gives a current text with something in common with the desired one.
func related(t *engine.T, d sim.Dialect, desired string) string {
	switch t.N(6) {
	case 0:
		return ""
	case 1:
		return anyText(t, d)
	case 2, 3:
		return nearby(t, d, desired)
	case 4:
		return desired
	}
	return sentences(t, d)
}

func anyInput(t *engine.T) *engine.Failure {
	d := engine.Pick(t, allDialects)
	desired := anyText(t, d)
	current := related(t, d, desired)
	if t.Bool() {
		desired, current = current, desired
	}
	t.Logf("dialect: %s", d)
	t.Logf("desired (%d bytes): %s", len(desired), clipTo(desired, 3000))
	t.Logf("current (%d bytes): %s", len(current), clipTo(current, 3000))
	t.Sample(fmt.Sprintf("%s %q <- %q", d, clipTo(desired, 300), clipTo(current, 300)))
	first := ask(mode(d), desired, current)
	if first.Fail != nil {
		return first.Fail
	}
	switch {
	case first.Err == "" && len(first.Plan) > 0:
		t.Label("planned")
		t.NonTrivial(d.String(), desired, current)
	case first.Err == "":
		t.Label("nothing to do")
	default:
		t.Label("error")
		t.NonTrivial(d.String(), desired, current)
	}
	again := ask(mode(d), desired, current)
	t.Evals(1)
	if again.String() != first.String() {
		return engine.Fail("not-deterministic", "the same input is answered differently\nfirst:  %v\nsecond: %v", first, again)
	}
	return nil
}

// together asks several inputs one by one and then all at the same time.
func together(t *engine.T) *engine.Failure {
	type input struct {
		d                sim.Dialect
		desired, current string
	}
	var ins []input
	for i := t.Range(2, 5); i > 0; i-- {
		d := engine.Pick(t, allDialects)
		in := input{d: d}
		if t.Chance(70) {
			in.desired = goodText(t, d)
		} else {
			in.desired = anyText(t, d)
		}
		in.current = related(t, d, in.desired)
		ins = append(ins, in)
		t.Logf("input %s\ndesired: %s\ncurrent: %s", d, clipTo(in.desired, 1500), clipTo(in.current, 1500))
	}
	var alone []answer
	for _, in := range ins {
		a := ask(mode(in.d), in.desired, in.current)
		if a.Fail != nil {
			return a.Fail
		}
		alone = append(alone, a)
	}
	const each = 3
	got := make([]answer, each*len(ins))
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for k := range got {
		in := ins[k%len(ins)]
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			<-gate
			got[k] = ask(mode(in.d), in.desired, in.current)
		}(k)
	}
	close(gate)
	wg.Wait()
	t.Evals(len(got))
	for k, a := range got {
		if a.Fail != nil {
			return engine.Fail("crash-together", "input %d asked together with others: %s", k%len(ins), a.Fail.Msg)
		}
		if want := alone[k%len(ins)]; a.String() != want.String() {
			return engine.Fail("not-independent", "input %d is answered differently when others are planned at the same time\nalone:    %v\ntogether: %v", k%len(ins), want, a)
		}
	}
	t.NonTrivial(fmt.Sprint(ins))
	return nil
}

func init() {
	engine.Register(&engine.Check{ID: "C15",
		Rule: "a case is a pair of texts (schemas, damaged schemas, sentences derived from the grammar, or noise) in one dialect, planned twice; or several such pairs planned alone and then at the same time; non-trivial: a plan or an error came out, distinct by texts",
		Parts: []engine.Part{
			{Name: "any-input", Quick: 300000, Thorough: 40000000, Run: anyInput},
			{Name: "together", Quick: 20000, Thorough: 1000000, Run: together},
		}})
}
