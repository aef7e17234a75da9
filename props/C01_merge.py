"""Offline oracle over the signatures recorded by all worker processes."""


def merge(extras, mon, seed, tier):
    out = []

    def bad(monitor, message):
        out.append({'property': 'C01', 'family': 'common', 'index': 0, 'seed': seed, 'tier': tier, 'monitor': monitor, 'message': message, 'history': []})
    table = {}
    for e in extras:
        for r, ident in e.get('_r', {}).items():
            mon['first-number-not-shared-anywhere'] = mon.get('first-number-not-shared-anywhere', 0) + 1
            if table.setdefault(r, ident) != ident:
                bad('first-number-not-shared-anywhere', 'r=%s by %s and %s' % (r, table[r], ident))
    sigs = {}
    for e in extras:
        for km, sig in e.get('_common', {}).items():
            mon['same-in-every-process'] = mon.get('same-in-every-process', 0) + 1
            if sigs.setdefault(km, sig) != sig:
                bad('same-in-every-process', 'key:message %s signed as %s and %s' % (km, sigs[km], sig))
    return out
