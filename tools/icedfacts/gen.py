#!/usr/bin/env python3
"""Regenerates lib/facts/iced.json: assembles the samples of lib/isa.py and records the library's answers."""
import json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '../../lib'))
import isa

TMP = os.path.join(HERE, '../../target/icedfacts-asm')
TR = {'x86_64': 'x86_64-unknown-linux-gnu', 'i686': 'i686-unknown-linux-gnu'}


def asm(mode, text):
    p = subprocess.run(['llvm-mc', '-triple=' + TR[mode], '-filetype=obj', '-mattr=+avx,+rtm', '-o', TMP + '.o'],
                       input='.intel_syntax noprefix\n' + text + '\n', text=True, capture_output=True)
    if p.returncode:
        print('cannot assemble', mode, repr(text), p.stderr[:200], file=sys.stderr)
        return None
    o = subprocess.run(['llvm-objcopy', '-O', 'binary', '--only-section=.text', TMP + '.o', TMP + '.bin'], capture_output=True)
    return open(TMP + '.bin', 'rb').read().hex()


def main():
    entries, q = [], []
    for mode, f in isa.X86LISTS.items():
        for name, text, cls in f():
            h = text[4:] if text.startswith('raw:') else asm(mode, text)
            if h is not None:
                entries.append((mode, name, cls, h))
                q.append(f'{64 if mode == "x86_64" else 32} {h}')
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HERE, '../../target/icedfacts'))
    lock = os.path.join(HERE, 'Cargo.lock')
    subprocess.run(['cp', '/repo/Cargo.lock', lock], check=True)
    r = subprocess.run(['cargo', 'run', '--offline', '-q'], cwd=HERE, input='\n'.join(q) + '\n', text=True, capture_output=True, env=env)
    os.unlink(lock)
    if r.returncode:
        sys.exit(r.stderr)
    out = []
    for (mode, name, cls, h), l in zip(entries, r.stdout.splitlines()):
        d = json.loads(l)
        assert d['hex'] == h
        d.update(mode=mode, name=name, cls=cls)
        if d['len'] * 2 != len(h):
            print('length', name, d, file=sys.stderr)
        out.append(d)
    with open(os.path.join(HERE, '../../lib/facts/iced.json'), 'w') as f:
        f.write('[\n' + ',\n'.join(json.dumps(d, sort_keys=True) for d in out) + '\n]\n')
    print(len(out))


main()
