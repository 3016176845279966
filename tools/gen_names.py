#!/usr/bin/env python3
"""Generates harness/names.h (counting, switchable user-side names) and prof/tool.c (an interposing tool) from the public prototypes."""
import re
src = re.sub(r'/\*.*?\*/', '', open('/repo/src/armci.h').read(), flags=re.S)
out, tool = [], []
protos = re.findall(r'^\s*([A-Za-z_][A-Za-z_ ]*?[\s\*]+)(PARMCI_\w+|parmci_\w+)\s*\(([^;]*?)\)\s*;', src, re.M)
SIZE = {'Malloc': 'a1', 'Malloc_memdev': 'a1', 'Malloc_group_memdev': 'a1', 'Malloc_local': 'a0', 'Get': 'a2', 'Put': 'a2', 'Acc': 'a4', 'Put_flag': 'a2', 'NbPut': 'a2', 'NbGet': 'a2', 'NbAcc': 'a4'}
for f, base in (('PutS', 0), ('GetS', 0), ('AccS', 2), ('NbPutS', 0), ('NbGetS', 0), ('NbAccS', 2), ('PutS_flag', 0)): SIZE[f] = 'names_strided(a%d, a%d)' % (base + 4, base + 5)
for f, base in (('PutV', 0), ('GetV', 0), ('AccV', 2), ('NbPutV', 0), ('NbGetV', 0), ('NbAccV', 2)): SIZE[f] = 'names_vector(a%d, a%d)' % (base, base + 1)
SIZE['Rmw'] = '(a0 == ARMCI_FETCH_AND_ADD_LONG || a0 == ARMCI_SWAP_LONG ? 8 : 4)'
names = []
for ret, pname, args in protos:
    ret = ' '.join(ret.split()); name = pname.replace('PARMCI_', 'ARMCI_').replace('parmci_', 'armci_'); short = pname.split('_', 1)[1] if pname.startswith('PARMCI') else name
    args = ' '.join(args.split()); al = [] if args in ('void', '') else [a.strip() for a in args.split(',')]
    ps, cs = [], []
    for i, a in enumerate(al):
        m = re.match(r'(.*?)(\w+)\s*(\[\])?$', a); ps.append('%s a%d%s' % (m.group(1).strip(), i, m.group(3) or '')); cs.append('a%d' % i)
    i = len(names); names.append(name); P, C = ', '.join(ps) or 'void', ', '.join(cs); r = '' if ret == 'void' else 'return '
    out.append('static inline %s u_%s(%s) { names_user(%d, %s); %s; }\n#define %s u_%s' % (ret, name, P, i, SIZE.get(short, '0'), ('if (names_use_p) %s(%s); else %s(%s)' if ret == 'void' else 'return names_use_p ? %s(%s) : %s(%s)') % (pname, C, name, C), name, name))
    tool.append('%s %s(%s) { tool_seen(%d); %s%s(%s); }' % (ret, name, P, i, r, pname, C))
h = '// generated by tools/gen_names.py: every user call goes through these, so that it is counted and can use either name\n#pragma once\n'
h += 'extern "C" { void parmci_msg_barrier(void); void parmci_msg_group_barrier(ARMCI_Group *); void armci_msg_barrier(void); void armci_msg_group_barrier(ARMCI_Group *); }\n'
h += '#define NAMES_N %d\nextern int names_use_p; extern struct NamesShm { long user[NAMES_N], tool[NAMES_N], bytes[NAMES_N]; } *NM; extern const char *NAMES[NAMES_N];\n' % len(names)
h += 'static inline void names_user(int i, long b) { if (NM) { __atomic_fetch_add(&NM->user[i], 1, __ATOMIC_RELAXED); __atomic_fetch_add(&NM->bytes[i], b, __ATOMIC_RELAXED); } }\n'
h += 'static inline long names_strided(int *c, int l) { long s = 1; for (int i = 0; i <= l; i++) s *= c[i]; return s; }\nstatic inline long names_vector(armci_giov_t *v, int n) { long s = 0; for (int i = 0; i < n; i++) s += (long)v[i].bytes * v[i].ptr_array_len; return s; }\n'
open('/verif/harness/names.h', 'w').write(h + '\n'.join(out) + '\n')
open('/verif/prof/names.inc', 'w').write(',\n'.join('"%s"' % n for n in names) + '\n')
open('/verif/prof/tool.c', 'w').write('/* generated by tools/gen_names.py: a tool that interposes on every normal name */\n#include <armci.h>\nvoid tool_seen(int id);\n' + '\n'.join(tool) + '\n')
print(len(names), names)
