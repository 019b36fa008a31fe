from checks.props import P

REGISTRY = {p["id"]: dict(parts=p["parts"], rule=p["rule"], **p["kw"]) for p in P}
