#!/usr/bin/env python3
"""Adds the [patch] tables to a harness crate's Cargo.toml and bootstraps its Cargo.lock.

Cargo resolves a git dependency offline only if the lock file already names the patched package, so the first lock
is written by hand here; `cargo generate-lockfile`-like resolution then fills in the rest.
"""
import os, re, sys, tomllib
root = os.environ.get('MKLOCK_ROOT', '/verif')
ws = sys.argv[1] == '--workspace'
if ws: del sys.argv[1]
d = os.path.abspath(sys.argv[1])
toml = os.path.join(d, 'Cargo.toml')
s = open(toml).read().split('\n# --- patches')[0].rstrip() + '\n'
GIT = ['stdx', 'paths', 'vfs', 'vfs-notify']
IO = ['rowan', 'text-size', 'drop_bomb', 'line-index', 'itertools', 'salsa', 'salsa-macros', 'fst', 'enumset',
      'enumset_derive', 'gen-lsp-types', 'lsp-server', 'shellexpand', 'which', 'pathsearch', 'duration-string',
      'codespan-reporting', 'tracing-tree', 'num_threads', 'expect-test', 'datatest-stable', 'pretty_assertions']
want = sys.argv[2].split(',') if len(sys.argv) > 2 else None
s += '\n# --- patches: crates that are not available offline are replaced by the stand-ins in /verif/shims\n[patch.crates-io]\n'
for n in IO:
    if os.path.exists(f'{root}/shims/{n}/Cargo.toml') and (want is None or n in want):
        s += f'{n} = {{ path = "{root}/shims/{n}" }}\n'
s += '[patch."https://github.com/rust-lang/rust-analyzer.git"]\n'
for n in GIT:
    s += f'{n} = {{ path = "{root}/shims/{n}" }}\n'
open(toml, 'w').write(s)
# bootstrap lock
pk = {}
def load(dir_):
    t = tomllib.load(open(os.path.join(dir_, 'Cargo.toml'), 'rb'))
    name = t['package']['name']
    if name in pk: return
    deps = []
    pk[name] = (t['package']['version'], deps)
    for n, v in (t.get('dependencies', {}) | t.get('dev-dependencies', {})).items():
        if isinstance(v, dict) and 'path' in v:
            deps.append(n); load(os.path.normpath(os.path.join(dir_, v['path'])))
        elif n in GIT:
            deps.append(n); load(f'{root}/shims/{n}')
if ws:
    for n in sorted(os.listdir(d + '/crates')): load(d + '/crates/' + n)
else:
    load(d)
out = 'version = 4\n'
for n in sorted(pk):
    v, deps = pk[n]
    out += f'\n[[package]]\nname = "{n}"\nversion = "{v}"\n'
    if deps:
        out += 'dependencies = [\n' + ''.join(f' "{x}",\n' for x in sorted(deps)) + ']\n'
open(os.path.join(d, 'Cargo.lock'), 'w').write(out)
