"""Stand-in for the NJOY program: reads a deck from standard input up to the stop card, follows the tapes from module to module and delivers
the texts given in its configuration (environment variable NJOYSIM names a JSON file).

configuration: inputs {tape: kind}, ace {repr(T): text}, xsdir {repr(T): text}, pendf text, fail exit status (0: none), late exit status or minus the signal after
all outputs were written,
missing list of [kind, index of the temperature], log path
"""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import njoydeck


def main():
    deck = ''
    for line in sys.stdin:
        deck += line
        if line.strip() == 'stop':
            break
    cfg = json.load(open(os.environ['NJOYSIM']))
    print('stand-in for njoy')
    sys.stdout.flush()
    if cfg.get('fail'):
        print(' ***error in reconr***')
        return cfg['fail']
    ins = {f: open(f).read() for f in sorted(os.listdir('.')) if f.startswith('tape')}
    rec = dict(deck=deck, inputs=ins, cwd=os.getcwd(), error=None)
    try:
        go(cfg, deck, ins)
    except (njoydeck.DeckError, ValueError, IndexError, KeyError) as e:
        rec['error'] = '%s: %s' % (type(e).__name__, e)
        print(rec['error'])
    with open(cfg['log'], 'a') as f:
        f.write(json.dumps(rec) + '\n')
    if cfg.get('late') and not rec['error']:        # all outputs are there, but the run does not end well
        if cfg['late'] < 0:
            sys.stdout.flush()
            os.kill(os.getpid(), -cfg['late'])
        return cfg['late']
    return 9 if rec['error'] else 0


def go(cfg, deck, ins):
    tapes = {int(t): (k, []) for t, k in cfg['inputs'].items()}
    for t in tapes:
        if 'tape%d' % t not in ins:
            raise njoydeck.DeckError('input tape %d is not there' % t)
    n = 0
    for m in njoydeck.parse(deck):
        hist = []
        for kind, t in m['reads']:
            if t not in tapes or tapes[t][0] != kind:
                raise njoydeck.DeckError('%s reads tape %d as %s' % (m['name'], t, kind))
            hist = tapes[t][1] if kind == 'pendf' else hist
        hist = hist + [m['name']]
        for kind, t in m['writes']:
            if t in tapes:
                raise njoydeck.DeckError('%s overwrites tape %d' % (m['name'], t))
            tapes[t] = (kind, hist)
            text = None
            if kind in ('ace', 'xsdir'):
                text = deliver(cfg, kind, m, hist)
                if [kind, n] in cfg.get('missing', []):
                    text = None
            elif m['name'] == 'reconr':
                text = cfg['pendf'] if ['pendf', 0] not in cfg.get('missing', []) else None
            else:
                text = 'PENDF after %s\n' % ','.join(hist)
            if text is not None:
                open('tape%d' % t, 'w').write(text)
        if m['name'] == 'acer':
            n += 1


def deliver(cfg, kind, m, hist):
    text = cfg[kind][repr(float(m['temps'][0]))]
    text = text.replace('SUFF', m['suff'].lstrip('.'))
    if kind == 'ace':
        text = text.replace('HISTORY'.ljust(60), ','.join(hist)[:60].ljust(60))
    return text


if __name__ == '__main__':
    sys.exit(main())
