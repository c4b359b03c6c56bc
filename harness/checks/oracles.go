package checks

import (
	"sort"
	"strings"

	"verif.local/harness/engine"
	"verif.local/harness/gen"
	"verif.local/harness/sim"
)

// histories makes one part per dialect out of a per-step oracle.
func histories(ds []sim.Dialect, quick, thorough, steps int, fork bool, check func(*step) *engine.Failure) []engine.Part {
	var ps []engine.Part
	for _, d := range ds {
		d, quick := d, quick
		if d == sim.SQLite {
			quick /= 8
		}
		ps = append(ps, engine.Part{Name: d.String(), Quick: quick, Thorough: thorough, Run: func(t *engine.T) *engine.Failure {
			return history(kits[d], steps, fork, check)(t)
		}})
	}
	return ps
}

// isObject says whether a key of the canonical description names an object
// (and not the order of columns).
func isObject(key string) bool { return !strings.HasPrefix(key, "order ") }

// untouched: what is the same before and in the desired schema is not created,
// dropped or altered by any statement; kept tables and columns are not dropped.
func untouched(sp *step) *engine.Failure {
	if sp.R.Fail != nil {
		return sp.R.Fail
	}
	execs := sp.Srv.Execs()
	at := func(e sim.Effect) string {
		if e.Stmt >= 1 && e.Stmt <= len(execs) {
			return execs[e.Stmt-1]
		}
		return "?"
	}
	changed := map[string]bool{} // tables with any change
	for _, k := range append(keysOf(sp.Before), keysOf(sp.Want)...) {
		b, inB := sp.Before[k]
		w, inW := sp.Want[k]
		if inB != inW || b != w {
			changed[tableOf(k)] = true
		}
	}
	for _, e := range sp.Srv.Effects() {
		b, inB := sp.Before[e.Key]
		w, inW := sp.Want[e.Key]
		if !inB || !inW {
			continue
		}
		recreate := sp.K.D == sim.MSSQL && strings.HasPrefix(e.Key, "column ") && strings.Contains(b, " identity ") != strings.Contains(w, " identity ")
		switch {
		case e.Verb == "drop" && (strings.HasPrefix(e.Key, "table ") || strings.HasPrefix(e.Key, "column ")) && !recreate:
			return engine.Fail("dropped-kept", "%s is still in the desired schema but is dropped by: %s", e.Key, at(e))
		case b == w && e.Verb == "move":
			if !changed[tableOf(e.Key)] {
				return engine.Fail("needless", "%s of a table that does not change is moved by: %s", e.Key, at(e))
			}
		case b == w && e.Via != "server" && !(e.Via != "" && recreatedColumn(sp, e.Via)):
			return engine.Fail("needless", "%s is the same before and in the desired schema ({%s}) but gets %q from: %s", e.Key, b, e.Verb, at(e))
		}
	}
	return nil
}

func recreatedColumn(sp *step, key string) bool {
	if sp.K.D != sim.MSSQL || !strings.HasPrefix(key, "column ") {
		return false
	}
	return strings.Contains(sp.Before[key], " identity ") != strings.Contains(sp.Want[key], " identity ")
}

func keysOf(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// tableOf gives the table a key belongs to, or the key itself.
func tableOf(key string) string {
	i := strings.IndexByte(key, ' ')
	kind, rest := key[:i], key[i+1:]
	switch kind {
	case "table", "order":
		return "table " + rest
	case "column", "index", "fk", "policy":
		if j := strings.LastIndexByte(rest, '.'); j >= 0 {
			return "table " + rest[:j]
		}
	}
	return key
}

// removed: obsolete objects are gone after the run, each removed once, and
// nothing else is gone for good.
func removed(sp *step) *engine.Failure {
	r := sp.R
	if r.Fail != nil {
		return r.Fail
	}
	if r.PlanErr != nil {
		return engine.Fail("plan-error", "no plan for a valid desired file: %v", r.PlanErr)
	}
	if r.ExecErr != nil {
		return engine.Fail("rejected", "the server rejects a statement of the plan: %v\n%s", r.ExecErr, lastExec(sp.Srv))
	}
	after := sp.Srv.Canon()
	drops := map[string]int{}
	for _, e := range sp.Srv.Effects() {
		if e.Verb == "drop" {
			drops[e.Key]++
		}
	}
	obsolete := 0
	for _, k := range keysOf(sp.Before) {
		if !isObject(k) {
			continue
		}
		_, wanted := sp.Want[k]
		_, there := after[k]
		if !wanted {
			obsolete++
			if there {
				return engine.Fail("left-over", "%s is not in the desired schema but still there after the run", k)
			}
			if drops[k] != 1 {
				return engine.Fail("drop-count", "%s was removed %d times", k, drops[k])
			}
		} else if !there {
			return engine.Fail("lost", "%s is in the desired schema and was there, but is gone after the run", k)
		}
	}
	if obsolete > 0 {
		sp.T.Label("step with %s obsolete objects", bucket(obsolete))
	}
	return nil
}

// executable: there is a plan, and each statement is valid where it stands.
func executable(sp *step) *engine.Failure {
	r := sp.R
	if r.Fail != nil {
		return r.Fail
	}
	if r.PlanErr != nil {
		return engine.Fail("plan-error", "no plan for a valid desired file: %v", r.PlanErr)
	}
	if r.ExecErr != nil {
		return engine.Fail("rejected", "statement %d of %d is rejected: %v\n%s", len(sp.Srv.Execs()), len(r.Plan), r.ExecErr, lastExec(sp.Srv))
	}
	return nil
}

// respelled: another spelling of the same schema gives an empty plan against
// the database made from the first, and the same schema from the same start.
func respelled(sp *step) *engine.Failure {
	r := sp.R
	if r.Fail != nil {
		return r.Fail
	}
	if r.PlanErr != nil || r.ExecErr != nil || len(sim.Diff(sp.Srv.Canon(), sp.Want)) > 0 {
		return nil
	}
	st := gen.NewStyle(sp.T)
	text := st.Join(sp.K.Render(st, sp.Des))
	if text == sp.Text {
		return nil
	}
	sp.T.NonTrivial(sp.Text, text)
	sp.T.Logf("-- other spelling:\n%s", indent(text))
	o := sp.old
	sp.T.Evals(2)
	r2 := apply(o, text)
	switch {
	case r2.Fail != nil:
		return r2.Fail
	case r2.PlanErr != nil:
		return engine.Fail("plan-error", "the other spelling has no plan: %v", r2.PlanErr)
	case r2.ExecErr != nil:
		return engine.Fail("rejected", "the plan of the other spelling is rejected: %v\n%s", r2.ExecErr, lastExec(o))
	}
	if d := sim.Diff(o.Canon(), sp.Want); len(d) > 0 {
		return engine.Fail("diverged", "the other spelling leads to another schema:\n%s", strings.Join(d, "\n"))
	}
	return rerunEmpty(sp.Srv, text, "another spelling of the applied file")
}

// exported: what --export prints describes the database.
func exported(sp *step) *engine.Failure {
	r := sp.R
	if r.Fail != nil {
		return r.Fail
	}
	if r.PlanErr != nil || r.ExecErr != nil {
		return nil
	}
	have := sp.Srv.Canon()
	sp.Srv.ResetLog()
	dump, err, f := sp.Srv.Dump()
	if f != nil {
		return f
	}
	if err != nil {
		return engine.Fail("export-error", "the schema cannot be exported: %v", err)
	}
	if e := sp.Srv.Execs(); len(e) > 0 {
		return engine.Fail("export-writes", "export executes %s", e[0])
	}
	if (strings.TrimSpace(dump) == "") != (len(have) == 0) {
		return engine.Fail("export-empty", "the database has %d objects, the export is %q", len(have), dump)
	}
	sp.T.Evals(2)
	if len(have) > 0 {
		sp.T.NonTrivial(dump)
	}
	// The text itself is a description of the database...
	o := sp.Srv.Empty()
	defer o.Close()
	if err := o.Script(dump); err != nil {
		return engine.Fail("export-invalid", "a server rejects the exported text: %v\n%s", err, indent(dump))
	}
	if d := sim.Diff(o.Canon(), have); len(d) > 0 {
		return engine.Fail("export-differs", "executing the exported text gives another schema:\n%s\n%s", strings.Join(d, "\n"), indent(dump))
	}
	// ... the tool recreates the schema from it ...
	o = sp.Srv.Empty()
	defer o.Close()
	r2 := apply(o, dump)
	switch {
	case r2.Fail != nil:
		return r2.Fail
	case r2.PlanErr != nil:
		return engine.Fail("export-plan", "the exported text has no plan: %v\n%s", r2.PlanErr, indent(dump))
	case r2.ExecErr != nil:
		return engine.Fail("export-rejected", "recreating from the exported text is rejected: %v\n%s", r2.ExecErr, lastExec(o))
	}
	if d := sim.Diff(o.Canon(), have); len(d) > 0 {
		return engine.Fail("export-recreates", "recreating from the exported text gives another schema:\n%s\n%s", strings.Join(d, "\n"), indent(dump))
	}
	// ... and sees no difference to the database it came from.
	return rerunEmpty(sp.Srv, dump, "applying the export to its own database")
}
