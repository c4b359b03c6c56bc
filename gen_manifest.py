#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json
SIM = "Generated histories against a server model; trusts that model (harness/sim) to accept, reject and report as the real server does. Bounded by the generator's schema subset; sampling, not proof."
checks = [
 ("C01", "model-based histories (property-based testing): simulated MySQL server, oracle = fresh server executing the desired file", SIM),
 ("C02", "model-based histories (property-based testing): simulated PostgreSQL server with SQLite-backed catalogs; oracle = fresh server executing the desired file", SIM),
 ("C04", "model-free stateful property-based testing against real SQLite files; oracle = fresh file executing the desired script, plus preserved row values", "Real SQLite library; bounded by the generator's schema subset; sampling, not proof."),
 ("C05", "metamorphic property-based testing: second run of the same file is empty", SIM),
 ("C06", "metamorphic property-based testing: independently drawn spellings of one schema", SIM),
 ("C07", "property-based testing: effect log of executed statements versus schema difference", SIM),
 ("C08", "property-based testing: removal accounting over the effect log", SIM),
 ("C09", "property-based testing: server model enforcing statement preconditions", SIM),
 ("C10", "round-trip property-based testing of the exported DDL", SIM),
 ("C11", "property-based testing of the commands as processes: --export, --dry-run and apply compared on one situation; statement log of the server model, file contents and transaction counter of SQLite", SIM),
 ("C12", "property-based testing of the commands as processes with --skip-drop: an independent lexer splits the plan; effects and contents compared", SIM),
 ("C13", "fault injection at generated points (failing statement, BEGIN, COMMIT, catalog query, damaged file) into generated runs of the commands", SIM),
 ("C14", "mutation of generated valid files by one defect; oracle = refusal, and no statement executed by the command", "All four dialects at library level, commands against server models; sampling, not proof."),
 ("C15", "structure-aware fuzzing: damaged schemas, sentences derived from the grammar, noise; oracle = no crash or hang, same answer when asked again and from several goroutines", "Sampling, not proof. The grammar the sentences come from is a snapshot; it only steers generation."),
 ("C16", "property-based testing: generated flags and environments; the real commands log in to protocol-level listeners that record user, password, database and TLS", "Real drivers over loopback; users with a backslash are left out for SQL Server (Windows authentication by its driver)."),
 ("C18", "grammar-based generation of statement trees with spellings (property-based testing): tree = parse(text) = parse(format(tree)); mutation of token sequences", "Statements of the DML/query grammar in MySQL mode; sampling, not proof."),
 ("C19", "generated queries (property-based testing): substitution of the extracted values restores the tree; redacted text searched for the original literals; reference substitution", "Statements of the query generator in MySQL mode; sampling, not proof. Listed findings: separators, hex/bit literals, over-long and leading-zero integers stay in redacted queries."),
 ("C20", "generated texts of known pieces (property-based testing): splitting returns exactly the pieces; plan of a file = plan of its separately stated statements; margins and directives restored", "All four dialects for schema files, MySQL mode for query texts; sampling, not proof."),
 ("C21", "property-based testing: round trips of generated values through SQL text, bind variables, plan values and JSON; reference arithmetic for ranges", "In-process library calls; sampling, not proof."),
]
na = []
claimed = {c[0] for c in checks}
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    if p['id'] not in claimed:
        na.append({"property": p['id'], "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./run.sh setup",
     "checks": [{"property": i, "quick_cmd": "./run.sh check "+i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh check "+i,
                 "technique": t, "level": "exploration", "level_note": n} for i, t, n in checks],
     "not_applicable": na,
     "notes": "No hooks in /repo. Checks build harness/ against /repo's working tree; the three network drivers are replaced by fakes that talk to server models."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
