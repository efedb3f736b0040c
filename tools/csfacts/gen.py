#!/usr/bin/env python3
"""Regenerates lib/facts/capstone.json: assembles the samples of lib/isa.py and records the library's answers."""
import json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '../../lib'))
import isa

TR = {'aarch64': ('aarch64-none-linux-gnu', '+v8.8a,+pauth,+hbc'), 'armv7': ('armv7-none-eabihf', '+v7,+vfp3,+neon'),
      'thumb': ('thumbv7-none-eabihf', '+vfp3,+neon,+thumb2')}


def asm(mode, text):
    tr, at = TR[mode]
    p = subprocess.run(['llvm-mc', '-triple=' + tr, '-show-encoding', '-mattr=' + at], input=text + '\n', text=True, capture_output=True)
    enc = re.findall(r'encoding: \[(.*?)\]', p.stdout)
    if not enc:
        print('cannot assemble', mode, repr(text), p.stderr[:200], file=sys.stderr)
        return None
    out = []
    for e in enc:
        try:
            out.append(bytes(int(b.strip(), 16) for b in e.split(',')).hex())
        except ValueError:
            print('fixup', mode, text, e, file=sys.stderr)
            return None
    return out


def main():
    entries = []
    for mode, f in isa.LISTS.items():
        for e in f():
            h = [e['hex']] if e.get('hex') else asm(mode, e['asm'])
            if h is None:
                continue
            e = dict(e)
            e['mode'] = mode
            e['enc'] = h
            entries.append(e)
    q = {(e['mode'], ''.join(e['enc'])) for e in entries}
    for mode, bs in isa.BRANCHES.items():
        for n, (f, size, cond) in bs.items():
            for d in isa.BR_DISPS[mode]:
                q.add((mode, f(d).hex()))
    for d in isa.BR_DISPS_W['thumb']:
        q.add(('thumb', isa.b_t32(d).hex()))
    # the instructions of the assembly blocks, for every register
    import tmpl
    for mode in isa.LISTS:
        for i, _ in enumerate(range(31)):
            for k in range(0, 8):
                if mode == 'aarch64':
                    q.add((mode, (0x58000000 | k << 5 | i).to_bytes(4, 'little').hex()))
                    q.add((mode, (0xd61f0000 | i << 5).to_bytes(4, 'little').hex()))
                elif i < 15 and mode == 'armv7':
                    q.add((mode, (0xe59f0000 | i << 12 | 4 * k).to_bytes(4, 'little').hex()))
                    q.add((mode, (0xe12fff10 | i).to_bytes(4, 'little').hex()))
                elif i < 15:
                    if i < 8:
                        q.add((mode, (0x4800 | i << 8 | k).to_bytes(2, 'little').hex()))
                    q.add((mode, (0xf8df).to_bytes(2, 'little').hex() + (i << 12 | 4 * k).to_bytes(2, 'little').hex()))
                    q.add((mode, (0x4700 | i << 3).to_bytes(2, 'little').hex()))
    q.add(('aarch64', '1f2003d5'))
    q.add(('thumb', '00bf'))
    inp = ''.join(f'{m} {h}\n' for m, h in sorted(q))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HERE, '../../target/csfacts'))
    lock = os.path.join(HERE, 'Cargo.lock')
    subprocess.run(['cp', '/repo/Cargo.lock', lock], check=True)
    r = subprocess.run(['cargo', 'run', '--offline', '-q'], cwd=HERE, input=inp, text=True, capture_output=True, env=env)
    os.unlink(lock)
    if r.returncode:
        sys.exit(r.stderr)
    facts = {}
    for l in r.stdout.splitlines():
        d = json.loads(l)
        facts.setdefault(d['mode'], {})[d['hex']] = d['ins']
    with open(os.path.join(HERE, '../../lib/facts/capstone.json'), 'w') as f:
        f.write('{"entries": [\n' + ',\n'.join(json.dumps(e, sort_keys=True) for e in entries) + '\n],\n"facts": {\n')
        f.write(',\n'.join(json.dumps(m) + ': {\n' + ',\n'.join(json.dumps(h) + ': ' + json.dumps(facts[m][h]) for h in sorted(facts[m])) + '\n}' for m in sorted(facts)))
        f.write('\n}}\n')
    print(len(entries), {m: len(x) for m, x in facts.items()})


main()
