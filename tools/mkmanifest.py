#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYM = 'abstract interpretation of the source (symbolic value domain, joins at merges, loops summarised by recurrences)'
TECH = {
    'C01': SYM + ': iterator state after construction, steps and moves against mixed-radix arithmetic',
    'C02': SYM + ': index boxes of an arbitrary rank against the block partition',
    'C03': SYM + ': the search summarised as a minimum over the divisor product, against the mathematical optimum',
    'C04': SYM + ': neighbour rank against periodic mixed-radix neighbour',
    'C05': SYM + ': distributed field summary (remote reads resolved by rank substitution) against the serial periodic stencil',
    'C06': 'epoch typestate over the ordered event trace of the abstract run, plus value flow through the exposed buffer',
    'C07': 'collective matching: control dependence of collective events on rank, and equality of their arguments',
    'C08': 'typestate of MPI, window, buffer and object life cycles over every exit path',
    'C09': 'dependence analysis of parallel regions: conflicting access pairs across iterations, data-sharing classification',
    'C10': SYM + ': one time step against the upwind update, for every implementation',
    'C11': SYM + ': constructor post-state against the specified grid quantities, for every implementation',
    'C12': SYM + ': driver summary (solver as recording stub): step count and time step',
    'C13': SYM + ': parse of arbitrary argument vectors against a reference parser; option table typestate',
    'C14': SYM + ': option def-use and value flow into the solver, exit paths of parsing failures',
    'C15': 'output grammar: abstract token stream of each writer matched against the VTK grammar with symbolic counts',
    'C16': SYM + ': check sum, spread and timing reductions against sums over cells and ranks',
    'C17': SYM + ': matmul routines against the matrix product',
    'C18': 'definite-initialisation analysis over the abstract run (undefined values as first-class terms)',
    'C19': 'interval / symbolic bounds analysis of every element access; allocation typestate',
    'C20': SYM + ': gathered output array against the owner of every cell',
    'C26': SYM + ': stencil table and input function of the Laplacian benchmark against the documented problem',
    'C27': SYM + ': data reachable from the object before and after every observer, and the results of continuing from either',
    'C28': SYM + ': abstract text of every dump against index and value of each cell',
    'C29': SYM + ': abstract terminal output of a rank other than the root',
    'C21': 'accelerator data-clause analysis: device accesses against enclosing data clauses',
}
NOTE = ('Obligations marked proved are decided by normal form and hold for all inputs; those marked agreed compare the extracted '
        'closed-form summary with the specification at sampled valuations of its symbols, a violation always comes with a concrete '
        'witness. Trusts the clang/gfortran/ast front ends, the models of the standard library, MPI and OpenMP in fidistatic, exact real arithmetic and '
        'the absence of integer overflow except where checked.')
NA = {
    'C22': 'floating-point rounding depends on the order of additions chosen by the MPI library, the OpenMP runtime and each compiler; no static argument over the sources bounds it, and the reductions used are in fact not bitwise reproducible',
    'C23': 'wall-clock behaviour is a property of the machine and the run, not of the source text',
    'C24': 'no Julia or Cython front end is installed (the programs are not built here either), so the sources can not be analysed beyond text matching',
    'C25': 'none of the writers tests its stream after writing; whether the system accepts the bytes is a run-time event, and the repository makes no promise to report it that its code could be held to',
}
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists('%s/fidistatic/checks/%s.py' % (V, i.lower())):
        c = 'python3 -m fidistatic.check %s --tier ' % i
        checks.append({'property': i, 'quick_cmd': c + 'quick', 'thorough_cmd': c + 'thorough', 'evidence_file': 'evidence/%s.json' % i,
                       'technique': TECH[i], 'level': 'other', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': 'not yet decided: the analysis for this property is still being built'})
json.dump({'version': 1, 'setup_cmd': 'python3 -m fidistatic.setup', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
