"""python mc/run.py CNN : run one check (tier from VERIF_TIER, shard order from VERIF_SEED)"""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':      # own the hash order (C10 explores other seeds)
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import engine
if __name__ == '__main__':
    sys.exit(engine.main(sys.argv[1]))
