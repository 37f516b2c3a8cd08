"""Builds the extractor and extracts the resolved program once (every check redoes this when the tree changed)."""
from . import facts

if __name__ == '__main__':
    for k in ('main', 'pool', 'openmp'):
        fx = facts.facts(k)
        print('%s: %d functions, %d bodies, %d classes' % (k, len(fx.funcs), len(fx.bodies), len(fx.recs)))
