package checks

import (
	"strings"

	"verif.local/harness/engine"
	"verif.local/harness/gen"
	"verif.local/harness/sim"
)

// step is one applied desired schema of a history.
type step struct {
	K      *kit
	T      *engine.T
	Srv    db
	Before map[string]string // schema before
	Want   map[string]string // schema described by the desired file
	old    db
	Fork   bool
	Des    *gen.Schema
	Prev   *gen.Schema
	Text   string
	R      *run
}

// history drives a sequence of desired schemas against one server, calling
// check after each step.
func history(k *kit, maxSteps int, fork bool, check func(*step) *engine.Failure) func(*engine.T) *engine.Failure {
	return func(t *engine.T) *engine.Failure {
		flavor := engine.Pick(t, k.Flavors)
		s := k.open(flavor)
		defer s.Close()
		if len(k.Flavors) > 1 {
			t.Logf("server: %v %s", k.D, flavor)
		}
		n := t.Range(2, maxSteps)
		var cur *gen.Schema
		for i := 0; i < n; i++ {
			var des *gen.Schema
			if cur == nil {
				des = k.New(t, flavor)
			} else if t.Chance(3) {
				des = &gen.Schema{DB: cur.DB, Flavor: cur.Flavor}
			} else {
				des = k.Mutate(t, cur, t.Range(1, 6))
			}
			st := gen.NewStyle(t)
			text := st.Join(k.Render(st, des))
			want := k.fresh(t, flavor, text)
			if want == nil {
				return nil
			}
			wantCanon := want.Canon()
			want.Close()
			// The database may also have been brought to its state by other means.
			if cur == nil && t.Chance(30) {
				if err := s.Script(text); err != nil {
					engine.Bug("script: %v", err)
				}
				t.Logf("-- database made by:\n%s", indent(text))
				cur = des
				continue
			}
			sp := &step{K: k, T: t, Srv: s, Before: s.Canon(), Want: wantCanon, Des: des, Prev: cur, Text: text}
			if fork {
				sp.old = s.Fork()
			}
			if k.BeforeStep != nil {
				k.BeforeStep(sp)
			}
			t.Logf("-- desired file %d:\n%s", i+1, indent(text))
			s.ResetLog()
			sp.R = apply(s, text)
			t.Logf("-- plan:\n%s", script(sp.R.Plan))
			t.Evals(1)
			if len(sp.R.Plan) > 0 && cur != nil {
				t.NonTrivial(sp.R.Dump, text)
				t.Label("plan of %s statements", bucket(len(sp.R.Plan)))
			}
			if i == n-1 {
				t.Sample("current: " + clip(sp.R.Dump) + "\ndesired: " + clip(text) + "\nplan: " + clip(strings.Join(sp.R.Plan, "; ")))
			}
			f := check(sp)
			if sp.old != nil {
				sp.old.Close()
			}
			if f != nil {
				return f
			}
			if sp.R.Fail != nil || sp.R.PlanErr != nil || sp.R.ExecErr != nil || len(sim.Diff(s.Canon(), sp.Want)) > 0 {
				return nil // not this property's business; the state is unknown from here on
			}
			cur = des
		}
		return nil
	}
}

func bucket(n int) string {
	switch {
	case n <= 1:
		return "1"
	case n <= 3:
		return "2-3"
	case n <= 8:
		return "4-8"
	}
	return "9+"
}

func clip(s string) string {
	if len(s) > 700 {
		return s[:700] + "..."
	}
	return s
}

// converges: all statements accepted, final schema as desired.
func converges(sp *step) *engine.Failure {
	r := sp.R
	if r.Fail != nil {
		return r.Fail
	}
	if r.PlanErr != nil {
		return engine.Fail("plan-error", "no plan for a valid desired file: %v", r.PlanErr)
	}
	if r.ExecErr != nil {
		return engine.Fail("rejected", "the server rejects a statement of the plan: %v\n%s", r.ExecErr, lastExec(sp.Srv))
	}
	if d := sim.Diff(sp.Srv.Canon(), sp.Want); len(d) > 0 {
		return engine.Fail("diverged", "after applying, the schema is not the desired one:\n%s", strings.Join(d, "\n"))
	}
	return nil
}

func lastExec(s db) string {
	e := s.Execs()
	if len(e) == 0 {
		return ""
	}
	return e[len(e)-1]
}

// idempotent: the second run with the same file is empty.
func idempotent(sp *step) *engine.Failure {
	r := sp.R
	if r.Fail != nil {
		return r.Fail
	}
	if r.PlanErr != nil || r.ExecErr != nil {
		return nil
	}
	return rerunEmpty(sp.Srv, sp.Text, "a second run with the same file")
}

func rerunEmpty(s db, text, what string) *engine.Failure {
	s.ResetLog()
	r := apply(s, text)
	if r.Fail != nil {
		return r.Fail
	}
	if r.PlanErr != nil {
		return engine.Fail("plan-error", "%s fails: %v", what, r.PlanErr)
	}
	if len(r.Plan) > 0 || len(s.Execs()) > 0 {
		return engine.Fail("not-idempotent", "%s is not empty:\n%s\ncurrent schema as dumped:\n%s", what, script(r.Plan), indent(r.Dump))
	}
	return nil
}
