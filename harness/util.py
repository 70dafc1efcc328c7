from lib import same


def same_params(a, b):
    return same({k: a[k] for k in sorted(a)}, {k: b[k] for k in sorted(b)})
