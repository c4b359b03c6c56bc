package checks

import (
	"verif.local/harness/engine"
	"verif.local/harness/gen"
	"verif.local/harness/sim"
)

var simAssumptions = []string{
	"the server models in harness/sim accept and reject statements, and report their catalogs, as the real servers do",
}

var simDialects = []sim.Dialect{sim.MySQL, sim.SQLite, sim.Postgres}

func init() {
	cfg := gen.MyCfg{Odd: 12, Views: true, Trigs: true, Colls: true}
	kits[sim.MySQL] = &kit{D: sim.MySQL, Flavors: []string{"5.7", "8.0"},
		New:    func(t *engine.T, fl string) *gen.Schema { return gen.MySchema(t, cfg, fl) },
		Mutate: func(t *engine.T, cur *gen.Schema, n int) *gen.Schema { return gen.MyMutate(t, cfg, cur, n) },
		Render: gen.MyRender,
	}
	engine.Register(&engine.Check{ID: "C01", Assumptions: simAssumptions,
		Rule: "a case is a history of 2-6 desired MySQL files applied to one simulated server (5.7 or 8.0 behaviour); after every step the server's schema must equal that of a fresh server which executed the file; non-trivial: a step on an existing schema whose plan is not empty, distinct by (dumped schema, file)",
		Parts: []engine.Part{
			{Name: "history", Quick: 27000, Thorough: 1500000, Run: func(t *engine.T) *engine.Failure { return history(kits[sim.MySQL], 6, false, converges)(t) }},
		}})
	const hist = "a case is a history of desired files applied to one simulated server; "
	const nt = "; non-trivial: a step on an existing schema whose plan is not empty, distinct by (dumped schema, file)"
	engine.Register(&engine.Check{ID: "C05", Teardown: sqliteTeardown, Assumptions: simAssumptions,
		Rule:  hist + "after every step the same file is run again and must give an empty plan and execute nothing" + nt,
		Parts: histories(simDialects, 12000, 600000, 5, false, idempotent)})
	engine.Register(&engine.Check{ID: "C06", Teardown: sqliteTeardown, Assumptions: simAssumptions,
		Rule:  hist + "after every step the same schema in an independently drawn spelling is applied to the result (empty plan) and to the state before (same schema); non-trivial: the two spellings differ, distinct by both texts",
		Parts: histories(simDialects, 8000, 400000, 4, true, respelled)})
	engine.Register(&engine.Check{ID: "C07", Teardown: sqliteTeardown, Assumptions: simAssumptions,
		Rule:  hist + "the effects of every executed statement on every object are compared with what differs between the schema before and the desired one" + nt,
		Parts: histories(simDialects, 12000, 600000, 6, false, untouched)})
	engine.Register(&engine.Check{ID: "C08", Teardown: sqliteTeardown, Assumptions: simAssumptions,
		Rule:  hist + "every obsolete object must be gone, removed by one statement, and nothing else may be gone" + nt,
		Parts: histories(simDialects, 12000, 600000, 6, false, removed)})
	engine.Register(&engine.Check{ID: "C09", Teardown: sqliteTeardown, Assumptions: simAssumptions,
		Rule:  hist + "the simulated server enforces the preconditions of every statement at its place in the plan" + nt,
		Parts: histories(simDialects, 12000, 600000, 6, false, executable)})
	engine.Register(&engine.Check{ID: "C10", Teardown: sqliteTeardown, Assumptions: append([]string{"foreign keys of an exported file may refer to tables created later in it (FOREIGN_KEY_CHECKS=0)"}, simAssumptions...),
		Rule:  hist + "after every step the exported text is executed on an empty server, applied by the tool to an empty server, and applied to the database itself; non-trivial: the export of a non-empty database, distinct by text",
		Parts: histories(simDialects, 8000, 400000, 4, false, exported)})
}
