"""Which workloads decide which property: {property: [(variant, scenario, quick cases, thorough cases)]}."""
RULES = ('cases are generated from (seed, case index); a case counts as distinct by the hash of its schedule (sequence of scheduling decisions and MPI events), '
         'situations by the hash of (operation kinds, shapes, configuration, observed outcome) the oracle saw')
def both(s, q, t): return [('ompi4', s, q, t), ('mpich', s, q * 2 // 5, t), ('ompi5', s, q // 5, t // 2)]
def mix(q, t, *ss):
    out = []
    for s in ss: out += both(s, q, t)
    return out
def also(q, t, *ss): return [('ompi4', s, q, t) for s in ss] + [('mpich', s, q // 3, t // 2) for s in ss]
def segs(q): return [('mpich', 'X_SEGS', q, q * 20), ('ompi4', 'X_SEGS', q // 3, q * 8)]      # one transfer of many segments (scale.cpp)
def many(q, *ss): return [(v, s, n, n * 40) for s in ss for v, n in (('ompi4', q), ('mpich', q // 2), ('ompi5', q // 3))]      # long histories and large populations (scale.cpp)
def mt(q, t, *ss): return [('ompi4-mt', s, q, t) for s in ss]
def builds(v, spec): return [(v, x.split(':')[0], int(x.split(':')[1]), int(x.split(':')[1]) * 30) for x in spec.split()]
PLANS = {
 'C01': both('E_CONTIG', 1400, 40000) + also(250, 8000, 'E_MIX') + also(120, 4000, 'FAR', 'BULK') + many(40, 'X_OPS'),
 'C02': both('E_STRIDED', 1400, 40000) + also(250, 8000, 'E_NB', 'PUTFLAG') + also(180, 6000, 'FAR') + also(100, 4000, 'BULK') + segs(10),
 'C03': both('E_IOV', 1400, 40000) + also(250, 8000, 'E_OVL', 'E_NB') + also(180, 6000, 'FAR') + also(100, 4000, 'BULK') + segs(9),
 'C04': both('E_ACC', 1400, 40000) + also(250, 8000, 'HOTACC') + also(120, 4000, 'BULK') + also(80, 3000, 'FAR') + segs(8),
 'C05': both('HOTACC', 1500, 40000) + also(200, 8000, 'E_ACC') + mt(400, 12000, 'HOTACC'),
 'C06': both('RMW', 1500, 40000) + also(200, 8000, 'E_MIX') + mt(300, 10000, 'RMW') + also(80, 3000, 'FAR') + many(30, 'X_OPS'),
 'C07': both('MUTEX', 1300, 40000) + also(250, 8000, 'MUTEXFAIR') + mt(250, 8000, 'MUTEX') + many(60, 'X_MUTEX'),
 'C08': mix(700, 20000, 'MUTEX', 'MUTEXFAIR'),
 'C09': both('FENCE', 1300, 40000) + also(250, 8000, 'E_NB', 'E_GRP') + mt(250, 8000, 'FENCE') + also(200, 8000, 'BARSYNC'),
 'C10': both('PUTFLAG', 1500, 40000) + mt(300, 8000, 'PUTFLAG'),
 'C11': both('E_NB', 1200, 40000) + both('NBMANY', 150, 5000) + [('ompi5', 'NBMANY', 50, 3000)] + also(250, 8000, 'E_ACC') + many(60, 'X_NB'),
 'C12': both('ORDER', 1500, 40000) + mt(300, 10000, 'ORDER') + many(40, 'X_OPS'),
 'C13': both('E_ALLOC', 1300, 40000) + also(250, 8000, 'E_GRP', 'CYCLE') + also(80, 3000, 'FAR') + many(45, 'X_ALLOC'),
 'C14': both('CYCLE', 700, 20000) + also(250, 8000, 'INIT', 'GROUPS', 'MUTEX') + many(30, 'X_CYCLES', 'X_ALLOC', 'X_MUTEX'),
 'C15': both('GROUPS', 1300, 40000) + also(250, 8000, 'IDENT', 'E_GRP') + many(45, 'X_GROUPS'),
 'C16': both('GRPHANG', 1300, 40000) + also(250, 8000, 'GROUPS'),
 'C17': both('E_GRP', 1300, 40000) + also(250, 8000, 'GROUPS', 'CYCLE') + many(45, 'X_ALLOC'),
 'C18': both('GOP', 1500, 40000),
 'C19': both('COLL', 1500, 40000) + mt(200, 6000, 'COLL') + also(200, 8000, 'BARSYNC') + many(30, 'X_MSG'),
 'C20': both('MSG', 1500, 40000) + also(200, 8000, 'COLL') + many(45, 'X_MSG'),
 'C21': both('INIT', 1000, 20000) + also(200, 8000, 'CYCLE', 'IDENT') + many(45, 'X_CYCLES'),
 'C22': both('REJECT', 2000, 40000),
 'C23': both('E_MIX', 800, 30000) + both('CONF', 700, 20000),
 'C24': mix(300, 15000, 'E_MIX', 'E_STRIDED', 'E_IOV', 'E_ALLOC') + also(250, 8000, 'PACK', 'GROUPS', 'MSG', 'CONF', 'CYCLE'),
 'C25': [('ompi4-mt', 'THREADS', 250, 12000), ('ompi4', 'THREADS', 200, 12000), ('ompi4-tsan', 'THREADS', 220, 8000), ('mpich', 'THREADS', 100, 8000), ('ompi5', 'THREADS', 60, 4000), ('ompi4', 'INIT', 200, 8000)],
 'C26': mix(250, 12000, 'E_MIX', 'E_NB', 'E_IOV', 'GROUPS', 'MUTEX') + also(200, 8000, 'COLL', 'RMW', 'CYCLE', 'MSG', 'E_ACC'),
 'C27': both('E_SHR', 1200, 40000) + also(300, 8000, 'MSG', 'COLL', 'GOP') + mt(200, 6000, 'E_SHR') + also(150, 5000, 'BULK'),
 'C28': mix(700, 20000, 'OVERLAP', 'E_OVL') + [('mpich-pairs', 'OVERLAP', 200, 6000), ('mpich-pairs', 'E_OVL', 150, 5000)],
 'C29': [('ompi4-prof', 'PROF', 700, 20000), ('ompi4-tool', 'PROF', 500, 15000), ('ompi4', 'PROF', 300, 8000)],
 'C30': both('ACCESS', 1500, 40000) + mt(300, 10000, 'ACCESS') + both('BARSYNC', 500, 16000),
 'C31': both('PACK', 1500, 40000) + also(150, 5000, 'FAR') + also(60, 2000, 'BULK'),
 'C33': builds('ompi4-fast', 'E_MIX:220 E_NB:120 GROUPS:150 GRPHANG:150 CYCLE:60 MUTEX:120 MSG:80 CONF:100 INIT:60 ACCESS:80 BARSYNC:60 X_GROUPS:20 X_MUTEX:20')
      + builds('mpich-fast', 'E_MIX:220 E_IOV:120 E_ACC:100 E_STRIDED:100 E_ALLOC:100 CONF:100 THREADS:90 COLL:80 GOP:80 PACK:80 E_GRP:80 E_SHR:80 FENCE:80 X_ALLOC:20 X_OPS:15')
      + builds('ompi5-plain', 'E_MIX:220 E_NB:100 NBMANY:30 E_ALLOC:80 PUTFLAG:80 RMW:80 MUTEX:80 PROF:120 FENCE:60 ACCESS:60 COLL:60 X_NB:20 X_MSG:15'),
 'C32': both('IDENT', 1000, 20000) + also(200, 8000, 'GROUPS', 'INIT'),
}
