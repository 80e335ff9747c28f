"""python3-vt -m pyvc.replay FILE: rerun a recorded failing input."""
import json
import sys

from pyvc import check


def main():
    d = json.load(open(sys.argv[1]))
    if d.get('finding'):
        r = check.run_job({'mode': 'finding', 'prop': d['property'],
                           'contract': d['finding']}, 120)
        print(r)
        return 1 if r.get('fails') else 0
    if not d.get('inputs'):
        print('no concrete input; failed obligation: %s' % d['obligation'])
        print(json.dumps(d.get('verifier'), indent=1))
        return 1
    r = check.run_job({'mode': 'replay', 'prop': d['property'],
                       'contract': d['contract'], 'inputs': d['inputs']},
                      120)
    print(json.dumps(r, indent=1))
    return 1 if r.get('reproduced') else 0


if __name__ == '__main__':
    sys.exit(main())
