"""Answers to the same jobs in all worker processes."""


def merge(extras, mon, seed, tier):
    out, table = [], {}
    for e in extras:
        for i, res in e.get('_answers', {}).items():
            mon['same-in-every-process'] = mon.get('same-in-every-process', 0) + 1
            if table.setdefault(i, res) != res:
                out.append({'property': 'C03', 'family': 'common', 'index': 0, 'seed': seed, 'tier': tier, 'monitor': 'same-in-every-process',
                            'message': 'common job %s answered %s and %s' % (i, table[i], res), 'history': []})
    return out
