"""Runs cases of a JSON file in a fresh process and prints history digests."""
import json
import sys

import core


def digests(cases):
    out = []
    for c in cases:
        try:
            R = core.Run(c['spec'], c['plan'])
            out.append([len(R.hist.t), R.hist.t[-1], R.hist.digest()])
        except core.Skip:
            out.append(None)
    return out


if __name__ == '__main__':
    with open(sys.argv[1]) as f:
        cs = json.load(f)
    res = digests(cs)
    print('DIGESTS ' + json.dumps(res))
