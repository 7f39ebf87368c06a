"""What each check builds and runs.  'lib' entries are directories of /repo whose
non-test, non-main sources are all linked, or single files."""
GRAPH = ['algs.cc', 'graphgen.cc'] + ['graphinst%d.cc' % i for i in range(5)]
GLIB = ['utils', 'search', 'search/anyprof', 'rdb']
GASSUME = ['finite graphs of at most 40 states (small ones for iterative deepening)', 'graph domain, integer and double costs, in-place and copying transitions',
           'the clock behind CPU and wall time is a virtual one except in the real-clock runs']

def alg(cases, thorough, **kw):
    u = dict(name='algs', src=GRAPH, lib=GLIB, exclude=['time.cc'], cases=cases, thorough=thorough)
    u.update(kw)
    return u

CHECKS = {
 'P01': dict(units=[alg(60000, 400000)], assumptions=GASSUME, require={'algs: solved': 10000, 'algs: runs with re-openings': 300},
   rule='a case counts when a search expanded at least 3 states; distinct by graph, command line, domain variant and expansions'),
 'P02': dict(units=[alg(60000, 400000)], assumptions=GASSUME, require={'algs: optimal solutions': 10000, 'algs: optimal with inconsistent heuristic': 1000, 'algs: optimal with zero-cost actions': 500},
   rule='a case counts when a search expanded at least 3 states; distinct by graph, command line, domain variant and expansions'),
 'P03': dict(units=[alg(60000, 400000)], assumptions=GASSUME, require={'algs: incumbents': 5000, 'algs: suboptimal within bound': 200, 'algs: converged': 1000, 'algs: incumbents with bound > 1': 500},
   rule='a case counts when a search expanded at least 3 states; distinct by graph, command line, domain variant and expansions'),
 'P04': dict(units=[alg(60000, 400000)], assumptions=GASSUME, require={'algs: unsolvable': 1000, 'algs: start is a goal': 100},
   rule='a case counts when a search expanded at least 3 states; distinct by graph, command line, domain variant and expansions'),
 'P05': dict(units=[alg(20000, 200000)], assumptions=GASSUME, require={'algs: cut short': 5000, 'algs: timed stops': 5, 'algs: timed, not reached': 1000},
   rule='a limited run counts when it expanded at least 3 states; distinct by graph, command line, domain variant and expansions'),
 'P06': dict(units=[alg(30000, 300000)], assumptions=GASSUME, require={'algs: reset comparisons': 10000},
   rule='a run counts when it expanded at least 3 states; distinct by graph, command line, domain variant and expansions'),
 'P07': dict(units=[alg(60000, 400000)], assumptions=GASSUME, require={'algs: solved': 10000, 'algs: walks longer than the shortest': 500},
   rule='a case counts when a search expanded at least 3 states; distinct by graph, command line, domain variant and expansions'),
}

STRUCTS = dict(src=['structs.cc'], lib=['utils', 'search', 'search/anyprof', 'rdb', 'structs'])
def structs(cases, thorough, **kw):
    u = dict(name='structs', cases=cases, thorough=thorough, **STRUCTS)
    u.update(kw)
    return u
MB = 'model-based runtime monitoring: each operation of a random history is applied to the real structure and to a naive model, under ASan/UBSan'
CHECKS.update({
 'P08': dict(units=[structs(40000, 400000)], technique=MB, require={'structs: pops': 100000, 'structs: clears': 500, 'structs: removals': 5000},
   rule='a history counts when it has at least 5 operations; distinct by its operations'),
 'P09': dict(units=[structs(16000, 200000)], technique=MB, require={'structs: removals': 10000, 'structs: tables seen grown': 1000},
   rule='a history counts when it has at least 5 operations; distinct by its operations'),
 'P10': dict(units=[structs(60000, 200000)], technique='runtime monitoring against a brute-force nearest neighbour, under ASan/UBSan', require={'structs: queries': 100000},
   rule='a tree counts when it has at least 3 points; distinct by dimension and inserted points'),
 'P11': dict(units=[structs(30000, 300000)], technique=MB, require={'structs: objects returned': 50000, 'structs: queries': 100000},
   rule='a pool history counts always, a disjoint-set history when it has at least 2 effective unions; distinct by operations'),
 'P12': dict(units=[structs(40000, 400000)], technique='model-based runtime monitoring against an exact Bellman-Ford bound computation, under ASan/UBSan', require={'structs: accepted': 50000, 'structs: rejected': 10000, 'structs: undos': 10000, 'structs: growths': 2000},
   rule='a history counts when at least 2 constraints were accepted; distinct by its operations'),
})

UT = dict(src=['utils.cc'], lib=['utils', 'utils/testing.cc', 'graphics', 'structs', 'visnav', 'plat2d'])
def ut(cases, thorough, **kw):
    u = dict(name='utils', cases=cases, thorough=thorough, **UT)
    u.update(kw)
    return u
CHECKS.update({
 'P19': dict(units=[ut(60000, 600000)], technique='runtime monitoring of round trips against independent decoders, under ASan/UBSan', require={'utils: strings encoded': 20000, 'utils: permutations ranked': 50000, 'utils: images': 500},
   rule='a string counts when it has more than 2 bytes; distinct by bytes, permutation or image'),
 'P20': dict(units=[ut(8000, 80000, progs=[('dfcmplt', ['rdb/dfcmplt.cc', 'utils', 'rdb'])])], technique='runtime monitoring: everything written is read back and compared, files truncated at sampled bytes are given to dfcmplt', require={'utils: items written and read': 20000, 'utils: truncated files': 2000, 'utils: complete files': 100},
   rule='a file counts when it has at least 2 items; distinct by contents (and truncation point)'),
 'P22': dict(units=[ut(30000, 300000)], technique='runtime monitoring: file system snapshots before and after, reference implementations of the string helpers, under ASan/UBSan', require={'utils: entries removed': 2000, 'utils: entries kept': 5000, 'utils: symbolic links': 2000, 'utils: paths': 10000},
   rule='a tree counts when it has more than 3 entries; distinct by tree and target, or by strings'),
 'P26': dict(units=[ut(8000, 80000)], technique='runtime monitoring against 128-bit and long double references, under ASan/UBSan', require={'utils: operand pairs': 1000000, 'utils: random integers': 100000, 'utils: hashes': 4000},
   rule='each batch counts; distinct by type and operands, seed and range, or arguments'),
})

CHECKS.update({
 'P17': dict(units=[dict(name='geom', src=['geom.cc'], lib=['utils'], cases=24000, thorough=300000)], technique='runtime monitoring against exact integer geometry and long double references, under ASan/UBSan',
   assumptions=['coordinates are multiples of 1/8 of magnitude up to 50 (100 for arcs); arcs and angles are judged only with a margin of 1e-6, or when they touch within 1e-11', 'hulls and random polygons: points in general position; points on the boundary of a polygon are not judged'],
   require={'geom: segments that meet': 100000, 'geom: collinear segments that meet': 10000, 'geom: arcs hit': 100000, 'geom: arcs missed': 50000, 'geom: polygons': 3000, 'geom: points inside': 10000, 'geom: hulls': 500},
   rule='a pair of segments, an arc and a line, or a polygon with its queries counts; distinct by coordinates'),
})

# Search domains.  Every unit runs the same generic monitors on another domain.
def dom(name, src, lib, cases, thorough, **kw):
    u = dict(name=name, src=[src, 'closedmax.cc'], lib=['utils', 'search', 'search/anyprof', 'rdb'] + [l for l in lib if l not in ('search', 'search/anyprof', 'rdb')], cases=cases, thorough=thorough)
    u.update(kw)
    return u
def pancake(n, c): return dom('pancake%d' % n, 'dom_pancake.cc', ['pancake/pancake.cc'], c, c * 10, defs=['-DNCAKES=%d' % n])
def tiles(w, h, c): return dom('tiles%dx%d' % (w, h), 'dom_tiles.cc', ['tiles/tiles.cc', 'tiles/mdist.cc'], c, c * 10, defs=['-DWIDTH=%d' % w, '-DHEIGHT=%d' % h])
def other(name, lib, c): return dom(name, 'dom_%s.cc' % name, lib, c, c * 10)
def visnav(c, more=[]): return dom('visnav', 'dom_visnav.cc', ['visnav', 'graphics', 'structs', 'search', 'search/anyprof', 'rdb'], c, c * 10,
    progs=[('pbm2poly', ['visnav/pbm2poly.cc', 'visnav', 'graphics', 'utils', 'structs']), ('mkgraph', ['visnav/mkgraph.cc', 'visnav', 'graphics', 'utils', 'structs'])] + more)
def segments(c): return dom('segments', 'dom_segments.cc', ['segments/segments.cc'], c, c * 10)
def plat2d(c): return dom('plat2d', 'dom_plat2d.cc', ['plat2d', 'visnav', 'graphics', 'structs'], c, c * 10)
def others():
    return [other('gridnav', ['gridnav/gridmap.cc', 'gridnav/gridnav.cc'], 3000),
            other('vacuum', ['vacuum/vacuum.cc', 'gridnav/gridmap.cc'], 1000),
            other('traffic', ['traffic/traffic.cc', 'traffic/gridmap.cc'], 1500),
            other('drobot', ['drobot/drobot.cc'], 600)]
def geometric(): return [segments(300), plat2d(400), visnav(600)]
def doms(p14=False):
    t = [tiles(3, 3, 16)] if p14 else [tiles(3, 3, 400), tiles(4, 4, 400), tiles(2, 8, 200)]
    k = [pancake(5, 400), pancake(6, 60)] if p14 else [pancake(2, 20), pancake(5, 200), pancake(6, 60), pancake(50, 300)]
    return t + k + others()
DA = ['states are identified by what dumpstate prints of them, and by their poses, positions or speeds in segments and plat2d']
SAN = ', under ASan/UBSan'
CHECKS.update({
 'P13': dict(units=doms() + geometric(), technique='runtime monitoring of transitions, copies, packing, hashes and incremental values' + SAN, assumptions=DA,
   require={'tiles3x3: inverses': 50000, 'tiles4x4: pairs of states compared': 50000, 'pancake50: transitions': 200000, 'gridnav: inverses': 200000, 'vacuum: pairs of states compared': 100000, 'traffic: pairs of states compared': 500000,
     'drobot: transitions': 50000, 'segments: transitions': 20000, 'plat2d: transitions': 40000, 'visnav: transitions': 40000},
   rule='a state whose operators were all tried counts; distinct by instance and state'),
 'P14': dict(units=doms(True) + [segments(800), plat2d(2000), visnav(600)], technique='runtime monitoring against exact costs computed backwards from the goals over reference rules, or against the cheapest way to a goal found in the explored part of the state space' + SAN, assumptions=DA,
   require={'tiles3x3: heuristics compared': 40000, 'pancake5: positive heuristics': 50000, 'gridnav: heuristics compared': 100000, 'vacuum: heuristics compared': 100000, 'traffic: heuristics compared': 400000, 'drobot: heuristics compared': 15000,
     'segments: positive heuristics': 40000, 'plat2d: positive heuristics': 40000, 'visnav: heuristics compared': 40000},
   rule='a state whose estimates were compared counts; distinct by instance and state'),
 'P15': dict(units=doms(), technique='runtime monitoring against independently written reference rules' + SAN, assumptions=DA,
   require={'tiles4x4: move sets compared': 20000, 'pancake6: move sets compared': 10000, 'gridnav: move sets compared': 40000, 'vacuum: move sets compared': 20000, 'traffic: move sets compared': 100000, 'drobot: move sets compared': 10000},
   rule='a state whose moves were compared with the rules counts; distinct by instance and state'),
 'P16': dict(units=[segments(4000), plat2d(4000)], technique='runtime monitoring of every motion against exact sweeps and laws of motion' + SAN,
   assumptions=['motions of segments that come within 1e-3 of something without meeting it by 1e-5 are not judged', 'levels that are enclosed by solid tiles'],
   require={'segments: blocked moves': 200000, 'segments: blocked turns': 30000, 'segments: free moves': 200000, 'segments: free turns': 100000, 'plat2d: frames in the open': 100000, 'plat2d: collisions': 100000},
   rule='a state whose motions were judged, or a frame, counts; distinct by instance, state and action'),
 'P18': dict(units=[visnav(3000, [('grid2poly', ['gridnav/2poly.cc', 'gridnav/gridmap.cc', 'visnav', 'graphics', 'utils', 'structs']), ('plat2poly', ['plat2d/2poly.cc', 'plat2d', 'visnav', 'graphics', 'utils', 'structs'])])], technique='runtime monitoring against exact visibility on random polygon maps and bitmaps, and runs of the map programs' + SAN,
   assumptions=['pairs of points whose line of sight passes within 4e-5 of an obstacle are not judged', 'bitmaps have a blocked border and free cells that are all connected by sides'],
   require={'visnav: visible pairs': 50000, 'visnav: hidden pairs': 50000, 'visnav: paths': 300, 'visnav: paths with bends': 100, 'visnav: graphs read back': 500, 'visnav: maps of pbm2poly': 10, 'visnav: graphs of mkgraph': 20, 'visnav: maps of grid2poly': 15, 'visnav: maps of plat2poly': 15},
   rule='a map counts when its graph was compared; distinct by its text'),
})

# Real solver programs, on instances of the domain harnesses.
AP = ['search/anyprof/profile.cc']
def solver(u, main, lib, cases, progdefs=None, dfcmplt=False, more=()):
    u = dict(u)
    u['name'] = 'solve-' + u['name']
    u['cases'], u['thorough'] = cases, cases * 10
    u['lib'] = list(u['lib'])
    u['progs'] = [('solver', [main, 'closedmax.cc', 'utils', 'search', 'search/anyprof', 'rdb', 'structs'] + lib, progdefs or [])]
    if not dfcmplt:
        u['progs'] += [(n, [m] + u['progs'][0][1][1:]) for n, m in more]
        u['progs'].append(('plainsolver',) + u['progs'][0][1:] + ('none',))
    if dfcmplt:
        u['progs'].append(('dfcmplt', ['rdb/dfcmplt.cc', 'utils', 'rdb']))
    return u
def solvers(k=1.0, dfcmplt=False):
    def n(c): return int(c * k)
    VG = ['visnav', 'graphics']
    us = [(pancake(6, 1), 'pancake/main.cc', ['pancake/pancake.cc'], n(400), ['-DNCAKES=6']),
          (tiles(3, 3, 1), 'tiles/main_mdist.cc', ['tiles/tiles.cc', 'tiles/mdist.cc'], n(300), ['-DWIDTH=3', '-DHEIGHT=3']),
          (other('gridnav', ['gridnav/gridmap.cc', 'gridnav/gridnav.cc'], 1), 'gridnav/main_gridnav.cc', ['gridnav/gridmap.cc', 'gridnav/gridnav.cc', 'gridnav/scenario.cc'], n(1000)),
          (other('vacuum', ['vacuum/vacuum.cc', 'gridnav/gridmap.cc'], 1), 'vacuum/main.cc', ['vacuum/vacuum.cc', 'gridnav/gridmap.cc'], n(500)),
          (other('traffic', ['traffic/traffic.cc', 'traffic/gridmap.cc'], 1), 'traffic/main_traffic.cc', ['traffic/traffic.cc', 'traffic/gridmap.cc'], n(500)),
          (other('drobot', ['drobot/drobot.cc'], 1), 'drobot/main.cc', ['drobot/drobot.cc'], n(500)),
          (segments(1), 'segments/main.cc', ['segments/segments.cc'], n(500)),
          (plat2d(1), 'plat2d/main.cc', ['plat2d'] + VG, n(400)),
          (visnav(1), 'visnav/main.cc', VG, n(500))]
    more = {'gridnav': [('scenario', 'gridnav/main_scenario.cc')], 'vacuum': [('cs730', 'vacuum/main_cs730.cc')]}
    return [solver(*u, dfcmplt=dfcmplt, more=more.get(u[0]['name'], ())) for u in us]
CHECKS.update({
 'P27': dict(units=solvers(), technique='runs of the real solver programs, built with ASan/UBSan, against exact optima of independently written rules or a plain uniform-cost search, and a parser of their data files',
   assumptions=['searches are limited to 30000 generated states, real-time searches to 2 s of CPU time; the limits are no failures', 'real-time searches must arrive only where all moves can be undone and cost something', 'instances of at most 30000 states have an exact optimum; others are judged for their legality and output only'],
   require={'solve-pancake6: optimal costs compared': 150, 'solve-tiles3x3: optimal costs compared': 60, 'solve-gridnav: optimal costs compared': 200, 'solve-gridnav: scenarios': 80, 'solve-vacuum: optimal costs compared': 120, 'solve-vacuum: plans followed': 50,
     'solve-traffic: printed solutions replayed': 400, 'solve-drobot: runs': 300, 'solve-segments: runs': 300, 'solve-plat2d: runs': 250, 'solve-visnav: optimal costs compared': 100},
   rule='a run that expanded at least 3 states counts; distinct by instance and command line'),
})
P20 = CHECKS['P20']
P20['units'] += solvers(0.15, dfcmplt=True)
P20['require'].update({'solve-%s: files judged complete or not' % d: 60 for d in ('pancake6', 'tiles3x3', 'gridnav', 'vacuum', 'traffic', 'drobot', 'segments', 'plat2d', 'visnav')})
CHECKS.update({
 'P21': dict(units=[dict(name='rdb', src=['rdb.cc'], lib=['utils', 'rdb'], cases=20000, thorough=200000, progs=[(n, ['rdb/%s.cc' % n, 'utils', 'rdb'], []) for n in ('pathfor', 'pathattrs', 'withattrs', 'addattrs')])],
   technique='model-based runtime monitoring: a map from attribute sets to paths is kept beside real databases in a scratch directory, and runs of the programs' + SAN,
   assumptions=['keys and values are not empty, have no slashes, are not . or .. or UNSPECIFIED, and values do not begin with KEY=', 'no attribute set of one database contains another', 'concurrent requests name the keys in one order'],
   require={'rdb: paths asked for': 20000, 'rdb: queries with answers': 10000, 'rdb: queries that select some of the files': 1000, 'rdb: attributes read back': 10000, 'rdb: files with attributes added': 700, 'rdb: concurrent requests': 4000, 'rdb: runs of withattrs': 800}, rule='a history of at least 2 paths, of list operations, or of arguments counts; distinct by its contents'),
})

# Instance generators.
def genprogs():
    S = ['utils', 'search', 'search/anyprof', 'rdb', 'structs', 'closedmax.cc']
    VG = ['visnav', 'graphics']
    t3 = ['-DWIDTH=3', '-DHEIGHT=3']
    return [('generator', ['tiles/generator.cc', 'utils'], []), ('tilessolver', ['tiles/main_mdist.cc', 'tiles/tiles.cc', 'tiles/mdist.cc'] + S, t3),
        ('mkinst', ['segments/mkinst.cc', 'segments/segments.cc'] + S, []), ('segmentssolver', ['segments/main.cc', 'segments/segments.cc'] + S, []),
        ('trafficgen', ['traffic/randinst.cc', 'traffic/traffic.cc', 'traffic/gridmap.cc', 'nolimit.cc'] + S, []), ('trafficsolver', ['traffic/main_traffic.cc', 'traffic/traffic.cc', 'traffic/gridmap.cc'] + S, []),
        ('mkseedinst', ['gridnav/mkseedinst.cc', 'gridnav/gridmap.cc', 'gridnav/gridnav.cc'] + S, []), ('gridrand', ['gridnav/randinst.cc', 'gridnav/gridmap.cc', 'gridnav/gridnav.cc'] + S, []),
        ('gridnavsolver', ['gridnav/main_gridnav.cc', 'gridnav/gridmap.cc', 'gridnav/gridnav.cc'] + S, []), ('ppm2grid', ['gridnav/ppm2grid.cc', 'utils'], []),
        ('scenario2rdb', ['gridnav/scenario2rdb.cc', 'utils', 'rdb'], []), ('vrand', ['visnav/rand.cc'] + VG + S, []), ('mkgraph', ['visnav/mkgraph.cc'] + VG + S, []),
        ('vinst', ['visnav/inst.cc'] + VG + S, []), ('visnavsolver', ['visnav/main.cc'] + VG + S, [])]
CHECKS.update({
 'P23': dict(units=[dict(name='gens', src=['gens.cc'], lib=['utils', 'rdb', 'traffic/traffic.cc', 'traffic/gridmap.cc'], cases=5000, thorough=50000, progs=genprogs())],
   technique='runs of the instance generators, built with ASan/UBSan, whose output is parsed independently, judged solvable by plain searches, compared with a second run and given to the solver programs',
   assumptions=['solvability is promised by the generators of tiles, traffic and seeded grids, and of visibility instances; a traffic generator that searches an unsolvable random instance for more than 5 s is given up', 'tiles have at most 25 cells, segments room to be placed'],
   require={'gens: tiles instances': 1000, 'gens: pairs of segments': 4000, 'gens: traffic instances': 300, 'gens: seed instances': 300, 'gens: seeds at the edge of a probability': 40, 'gens: grid instances': 300, 'gens: pictures': 200, 'gens: scenario entries': 600, 'gens: maps of polygons': 250, 'gens: visnav instances': 90, 'gens: narrow maps': 40, 'gens: reproduced': 1000, 'gens: instances given to the solver programs': 250},
   rule='an instance counts; distinct by the options of the generator or by its input'),
})

def toolprogs():
    S = ['utils', 'search', 'search/anyprof', 'rdb', 'structs', 'closedmax.cc']
    R = ['utils', 'rdb', 'search/anyprof/profile.cc']
    VG = ['visnav', 'graphics']
    ps = [p for p in genprogs() if not p[0].endswith('solver')]
    ps += [('pbm2poly', ['visnav/pbm2poly.cc'] + VG + S, []), ('grid2poly', ['gridnav/2poly.cc', 'gridnav/gridmap.cc'] + VG + S, []), ('plat2poly', ['plat2d/2poly.cc', 'plat2d'] + VG + S, [])]
    ps += [('scenario', ['gridnav/main_scenario.cc', 'gridnav/gridmap.cc', 'gridnav/gridnav.cc', 'gridnav/scenario.cc'] + S, []), ('cs730', ['vacuum/main_cs730.cc', 'vacuum/vacuum.cc', 'gridnav/gridmap.cc'] + S, [])]
    ps += [(n, ['rdb/%s.cc' % n] + R, []) for n in ('pathfor', 'pathattrs', 'withattrs', 'addattrs', 'dfcmplt')]
    ps += [(n, ['search/anyprof/%s.cc' % n] + R, []) for n in ('mkprof', 'bestwt', 'sptcounts', 'sptpolicy')]
    return ps
CHECKS.update({
 'P24': dict(units=solvers(0.6) + [dict(name='malformed', src=['malformed.cc'], lib=['utils', 'rdb', 'search', 'search/anyprof'], cases=1500, thorough=20000, progs=toolprogs())],
   technique='runs of every program and of the library decoders, built with ASan/UBSan, on mutated and truncated instances, files, strings and command lines, some under valgrind; a monitor of how each run ends',
   assumptions=['exhaustion of time or memory is no failure for an input that names a large number, or a command line that lifts the limits', 'leaks at exit are not judged', 'truncations are judged only where the format tells that something is missing'],
   require=dict({'solve-%s: malformed instances' % d: 400 for d in ('pancake6', 'tiles3x3', 'gridnav', 'vacuum', 'traffic', 'drobot', 'segments', 'plat2d', 'visnav')}, **{'malformed: malformed inputs': 2000, 'malformed: malformed data files': 400, 'malformed: command lines of tools': 700, 'malformed: truncations rejected': 150, 'malformed: strings given to runlendec': 200, 'malformed: strings given to dfread': 200, 'malformed: rejected': 1500, 'malformed: accepted': 1500}),
   rule='a malformed input, or a mutated command line, counts; distinct by program and text'),
})

# Anytime profiles.
CHECKS.update({
 'P25': dict(units=[dict(name='anyprof', src=['anyprof.cc'], lib=['utils', 'rdb', 'search/anyprof'], cases=8000, thorough=80000,
     progs=[t for t in toolprogs() if t[0] in ('mkprof', 'sptcounts', 'sptpolicy')] + [('solver', ['pancake/main.cc', 'pancake/pancake.cc', 'closedmax.cc', 'utils', 'search', 'search/anyprof', 'rdb', 'structs'], ['-DNCAKES=6'])])],
   technique='runtime monitoring of profiles and policies against counts and expected utilities computed from their definitions and against other policies, of runs of the programs over a database, and of the decisions of monitored searches' + SAN,
   assumptions=['values within 1e-9 of the edge between two bins may be counted in either', 'what a policy decides at costs worse than any it knows is not judged', 'monitored searches run under profiles so long that each decision is one of the first time bin'],
   require={'anyprof: profiles compared': 4000, 'anyprof: probabilities compared': 1000000, 'anyprof: policies compared': 1500, 'anyprof: decisions to go on': 15000, 'anyprof: decisions to stop': 15000, 'anyprof: policies it was compared with': 40000, 'anyprof: printed policies': 300, 'anyprof: monitored searches': 400, 'anyprof: searches that were stopped': 100, 'anyprof: searches that went on to the end': 40},
   rule='a set of solution streams with its bins, or a monitored search, counts; distinct by its contents'),
})
