'''Generates large members of the causet families and records their order.'''
from base import run, guarded, BadResult
from order_driver import label_out
from causets.causet import Causet


def generate(a):
    fam, args = a['fam'], a['args']
    if fam == 'perm':
        return Causet.FromPermutation(args)
    if fam == 'chain':
        return Causet.NewChain(args[0])
    if fam == 'antichain':
        return Causet.NewAntichain(args[0])
    if fam == 'simplex':
        return Causet.NewSimplex(args[0], bool(args[1]))
    return Causet.NewFence(args[0], args[1], bool(args[2]))


def main(case):
    out = dict(case)

    def build():
        C = generate(case['a'])
        L = list(C)
        if C.Card != len(L):
            raise BadResult('cardinality')
        if case['a']['fam'] != 'simplex':
            L.sort(key=lambda e: e.Label)
        no = {e: i + 1 for i, e in enumerate(L)}

        def ids(S):
            return sorted(no.get(e, 0) for e in S)
        return {'lab': [label_out(e.Label) for e in L],
                'past': [ids(e.Past) for e in L],
                'fut': [ids(e.Future) for e in L],
                'lp': [ids(e.LinkPast) for e in L]}
    r, err = guarded(build, 120.0)
    out['res'], out['err'] = r if not err else {}, err
    return out


if __name__ == '__main__':
    run(main)
