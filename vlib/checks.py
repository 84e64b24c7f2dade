"""registry of property checks"""
import importlib

PROPS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19']


def load_ops():
    for p in PROPS:
        importlib.import_module('vlib.' + p.lower())


def main(argv):
    import os
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('vlib.' + prop.lower())
    return mod.check(tier, seed)
