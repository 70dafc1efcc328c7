"""Constraint settings and the keyword arguments that request them."""
NONE = dict(t="none", r=0, a=1, b=1)


def sak(r):
    return dict(t="sak", r=r, a=1, b=1)


def ita(a, b=1):
    return dict(t="ita", r=0, a=a, b=b)


# (constraint of the specification, keyword arguments that request it)
CONS = [
    (NONE, {}),
    (NONE, dict(global_constraint=None)),
    (NONE, dict(global_constraint="")),
    (sak(1), dict(global_constraint="sakoe_chiba")),
    (sak(0), dict(global_constraint="sakoe_chiba", sakoe_chiba_radius=0)),
    (sak(1), dict(global_constraint="sakoe_chiba", sakoe_chiba_radius=1)),
    (sak(2), dict(global_constraint="sakoe_chiba", sakoe_chiba_radius=2)),
    (sak(3), dict(sakoe_chiba_radius=3)),
    (sak(1), dict(sakoe_chiba_radius=1)),
    (sak(0), dict(sakoe_chiba_radius=0)),
    (sak(50), dict(sakoe_chiba_radius=50)),
    (sak(1), dict(global_constraint="sakoe_chiba", sakoe_chiba_radius=1, itakura_max_slope=3.0)),
    (ita(2), dict(global_constraint="itakura")),
    (ita(2), dict(itakura_max_slope=2.0)),
    (ita(3, 2), dict(global_constraint="itakura", itakura_max_slope=1.5)),
    (ita(3), dict(global_constraint="itakura", itakura_max_slope=3.0)),
    (ita(5), dict(itakura_max_slope=5.0)),
    (ita(2), dict(global_constraint="itakura", itakura_max_slope=2.0, sakoe_chiba_radius=1)),
    (ita(10), dict(global_constraint="itakura", itakura_max_slope=10.0)),
]
