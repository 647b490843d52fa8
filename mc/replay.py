"""python mc/replay.py FILE -- re-execute one recorded case (twice) without the explorer"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import engine
if __name__ == '__main__':
    with open(sys.argv[1]) as f:
        art = json.load(f)
    engine.load_code()
    module = engine.find_module(art['property'])
    out = []
    for _ in range(2):
        bad = engine.run_one(module, art['case'], engine.Recorder())
        out.append(bad and bad['message'])
    print('case   :', json.dumps(art['case'])[:2000])
    print('result :', out[0] or 'property holds on this case')
    if out[0] != out[1]:
        print('NON-DETERMINISTIC REPLAY', out[1])
        sys.exit(2)
    sys.exit(1 if out[0] else 0)
