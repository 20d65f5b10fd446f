"""The properties and the workloads which decide them. gen.py writes properties.jsonl and MANIFEST.json from this."""

BOTH = ("quick", "thorough")


def J(harness, flavor, scenario, quick=1, thorough=8, keys=None, evals=None, cost=1, tiers=BOTH, budget=None, optional=False):
    d = dict(harness=harness, flavor=flavor, scenario=scenario, tiers=tiers, seeds=dict(quick=quick, thorough=thorough), cost=cost)
    if keys:
        d["keys"] = keys
    if evals:
        d["evals"] = evals
    if budget:
        d["budget"] = budget
    if optional:
        d["optional"] = True
    return d


def P(title, statement, over, text, why, files, mechanism, observe, jobs, rule, technique, note, assumptions=(), state=(), workers=None, na=None):
    return dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, observe=observe,
                state=state, jobs=jobs, rule=rule, technique=technique, note=note, assumptions=list(assumptions), level="exploration",
                workers=workers, na=na)


NET = "The kernel's loopback TCP and the exe4cpp/ser4cpp stand-ins of /verif/shim behave like the real ones."
WATCH = "A reaction that has not come within 20 s, in three runs, never comes."

PROPS = {}

exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "spec_core.py")).read())
exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "spec_wire.py")).read())
