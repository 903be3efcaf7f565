from . import rules_core, rules_hold, rules_grid, rules_kernel, rules_ldf, rules_lit, rules_model, rules_names, rules_parse, rules_run, rules_scope, rules_state, rules_tree
RULES = {}
for m in (rules_core, rules_hold, rules_grid, rules_kernel, rules_ldf, rules_lit, rules_model, rules_names, rules_parse, rules_run, rules_scope, rules_state, rules_tree):
    for pid, rule in m.RULES.items():
        RULES.setdefault(pid, []).append(rule)
WITNESSES = {m.__name__ for m in (rules_grid, rules_hold, rules_kernel, rules_lit, rules_names, rules_tree)}
