RULES = {}
import importlib
for m in ("rules_core", "rules_ops", "rules_color", "rules_codecs", "rules_app", "rules_misc", "rules_py", "rules_numpy", "rules_sample"):
    try: mod = importlib.import_module(m)
    except ModuleNotFoundError as e:
        if e.name != m: raise
        continue
    RULES.update(mod.RULES)
