#!/usr/bin/env python3
# writes /verif/checks.json
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def ocfl(run, *files, secs=12):
    return {'pkg': './pkg/ocfl', 'package': 'ocfl', 'files': ['common/common.go', 'ocfl/inv.go'] + [f if '/' in f else 'ocfl/' + f for f in files], 'run': run, 'secs': secs}
def ext(run, *files, secs=12):
    return {'pkg': './pkg/extension', 'package': 'extension', 'files': ['common/common.go', 'extension/ext.go'] + [f if '/' in f else 'extension/' + f for f in files], 'run': run, 'secs': secs}
C = {
 'C10': {'harness': [ext('TestVerifC10', 'c10.go')]},
 'C11': {'harness': [ext('TestVerifC11', 'c11.go')]},
 'C12': {'harness': [ext('TestVerifC12', 'c12.go')]},
 'C13': {'harness': [ext('TestVerifC13', 'c13.go')]},
 'C14': {'harness': [ext('TestVerifC14', 'c14.go')]},
 'C22': {'harness': [ext('TestVerifC22', 'c22.go', 'common/memfs.go')]},
 'C17': {'harness': [ext('TestVerifC17', 'c22.go', 'world.go', 'common/memfs.go', 'c20.go', 'c17.go')]},
 'C19': {'harness': [ext('TestVerifC19', 'c22.go', 'world.go', 'common/memfs.go', 'c20.go', 'c17.go', 'c19.go')]},
 'C20': {'harness': [ext('TestVerifC20', 'c22.go', 'world.go', 'common/memfs.go', 'c20.go')]},
 'C23': {'harness': [ext('TestVerifC23', 'c22.go', 'world.go', 'common/memfs.go', 'c20.go', 'c23.go')]},
 'C25': {'harness': [ext('TestVerifC25', 'c25.go')]},
 'C01': {'harness': [ocfl('TestVerifC01', 'c01.go')]},
 'C02': {'harness': [ocfl('TestVerifC02', 'c02.go')]},
 'C03': {'harness': [ocfl('TestVerifC03', 'c03.go')]},
 'C04': {'harness': [ocfl('TestVerifC04', 'c04.go')]},
 'C05': {'harness': [ocfl('TestVerifC05', 'c04.go')]},
 'C06': {'harness': [ocfl('TestVerifC06', 'c06.go')]},
 'C07': {'harness': [ocfl('TestVerifC07', 'c07.go')]},
 'C08': {'harness': [ocfl('TestVerifC08', 'c01.go', 'c02.go', 'c08.go')]},
 'C09': {'harness': [ocfl('TestVerifC09', 'c01.go', 'c02.go', 'c08.go')]},
 'C15': {'harness': [ocfl('TestVerifC15', 'c15.go', secs=6)]},
 'C16': {'harness': [ocfl('TestVerifC16', 'common/memfs.go', 'c16.go')]},
 'C18': {'harness': [ocfl('TestVerifC18', 'common/memfs.go', 'c16.go', 'c18.go')]},
 'C21': {'harness': [ocfl('TestVerifC21', 'c21.go')]},
 'C24': {'harness': [ocfl('TestVerifC24', 'c24.go')]},
}
CLAIM = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25'.split()
C = {k: v for k, v in C.items() if k in CLAIM or os.environ.get('VERIF_ALL')}
for c in C.values():
    c.setdefault('level', 'proof')
json.dump(C, open(V + '/checks.json', 'w'), indent=1)
