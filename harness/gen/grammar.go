package gen

import (
	_ "embed"
	"encoding/json"
	"sort"
	"strings"

	"verif.local/harness/engine"
)

//go:embed grammar.json
var grammarText []byte

// A snapshot of the grammar's rules, to derive sentences from. It only
// steers the generator: nothing is expected of a sentence but that it is
// answered.
var grammar = func() (g struct {
	Rules    map[string][][]string `json:"rules"`
	Keywords map[string][]string   `json:"keywords"`
}) {
	if err := json.Unmarshal(grammarText, &g); err != nil {
		panic(err)
	}
	return
}()

// grammarCost is the least depth of a derivation of each nonterminal.
var grammarCost = func() map[string]int {
	cost := map[string]int{}
	for changed := true; changed; {
		changed = false
		for n, alts := range grammar.Rules {
			for _, a := range alts {
				if c, ok := altCost(cost, a); ok {
					if old, known := cost[n]; !known || c+1 < old {
						cost[n] = c + 1
						changed = true
					}
				}
			}
		}
	}
	return cost
}()

// GrammarWords are all keywords.
var GrammarWords = func() []string {
	var out []string
	for _, ws := range grammar.Keywords {
		out = append(out, ws...)
	}
	sort.Strings(out)
	return out
}()

func altCost(cost map[string]int, alt []string) (int, bool) {
	max := 0
	for _, s := range alt {
		if s == "UNUSED" {
			return 0, false
		}
		if _, nt := grammar.Rules[s]; nt {
			c, ok := cost[s]
			if !ok {
				return 0, false
			}
			if c > max {
				max = c
			}
		}
	}
	return max, true
}

// Sentence derives a sentence of the grammar from a nonterminal.
func Sentence(t *engine.T, start string, depth int) []string {
	var out []string
	derive(t, start, depth, &out)
	return out
}

var terminals = map[string][]string{
	"BIT_LITERAL": {"b'101'", "B'0'", "b''"}, "COMMENT": {"/* c */"}, "FLOAT": {"1.5", "0.0", "1e10", ".5", "1e999"},
	"GE": {">="}, "LE": {"<="}, "NE": {"<>", "!="}, "HEX": {"x'1f'", "X'00'", "x''"}, "HEXNUM": {"0x1f", "0xF"},
	"ID":                      {"a", "b", "c", "id", "k", "t", "`x y`", "\"Q\"", "[z]", "n1", "max"},
	"INTEGRAL":                {"0", "1", "2", "10", "255", "99999999999999999999", "007"},
	"JSON_EXTRACT_OP":         {"->"},
	"JSON_UNQUOTE_EXTRACT_OP": {"->>"}, "LIST_ARG": {"::l"}, "NULL_SAFE_EQUAL": {"<=>"},
	"SHIFT_LEFT": {"<<"}, "SHIFT_RIGHT": {">>"}, "STRING": {"'a'", "''", "'it''s'", "N'u'", "'x;y'", "'é'"}, "VALUE_ARG": {":v", "?"},
}

// names are kept to a few so that statements are about the same things.
var grammarNames = map[string][]string{
	"table_name": {"t", "u", "v", "t", "u", "public.t", "dbo.t", "app.t", "`t`", "\"u\""},
	"table_id":   {"t", "u", "v"},
	"sql_id":     {"a", "b", "c", "a", "b", "k", "id"},
	"col_id":     {"a", "b", "c"},
}

func derive(t *engine.T, s string, depth int, out *[]string) {
	if len(*out) > 400 {
		depth = 0
	}
	if names := grammarNames[s]; names != nil && t.Chance(85) {
		*out = append(*out, engine.Pick(t, names))
		return
	}
	alts, nt := grammar.Rules[s]
	if !nt {
		*out = append(*out, terminal(t, s))
		return
	}
	var fit [][]string
	best, bestCost := []string(nil), 1<<30
	for _, a := range alts {
		c, ok := altCost(grammarCost, a)
		if !ok {
			continue
		}
		if c < depth {
			fit = append(fit, a)
		}
		if c < bestCost {
			best, bestCost = a, c
		}
	}
	if len(fit) > 0 {
		best = engine.Pick(t, fit)
	}
	for _, x := range best {
		derive(t, x, depth-1, out)
	}
}

func terminal(t *engine.T, s string) string {
	if strings.HasPrefix(s, "'") {
		return s[1 : len(s)-1]
	}
	if ws := terminals[s]; ws != nil {
		return engine.Pick(t, ws)
	}
	if ws := grammar.Keywords[s]; len(ws) > 0 {
		return engine.Pick(t, ws)
	}
	return strings.ToLower(s)
}
