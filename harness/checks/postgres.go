package checks

import (
	"verif.local/harness/engine"
	"verif.local/harness/gen"
	"verif.local/harness/sim"
)

func init() {
	cfg := gen.PgCfg{Odd: 10}
	kits[sim.Postgres] = &kit{D: sim.Postgres, Flavors: []string{"13", "16"},
		New:    func(t *engine.T, fl string) *gen.Schema { return gen.PgSchema(t, cfg, fl) },
		Mutate: func(t *engine.T, cur *gen.Schema, n int) *gen.Schema { return gen.PgMutate(t, cfg, cur, n) },
		Render: gen.PgRender,
	}
	engine.Register(&engine.Check{ID: "C02", Assumptions: simAssumptions,
		Rule: "a case is a history of 2-6 desired PostgreSQL files applied to one simulated server; after every step the server's schema must equal that of a fresh server which executed the file; non-trivial: a step on an existing schema whose plan is not empty, distinct by (dumped schema, file)",
		Parts: []engine.Part{
			{Name: "history", Quick: 12000, Thorough: 500000, Run: func(t *engine.T) *engine.Failure { return history(kits[sim.Postgres], 6, false, converges)(t) }},
		}})
}
