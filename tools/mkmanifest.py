"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = 'runtime monitoring of real constructions against an exact-arithmetic reference model'
T = {
    'C01': (REF, 'cells of every generated layout compared with exact half-plane intersection'),
    'C02': (REF + ' and statistical oracles at scale', 'tiling, convexity and nearest-site queries for up to thousands of sites'),
    'C03': (REF + ' and an empty-circle monitor', 'vertex list matched with the exact one'),
    'C04': (REF, 'edge list matched with the exact adjacencies and with the border'),
    'C05': ('structural invariant monitor over the half-edge records of real runs', 'every half-edge of every diagram, also at scale'),
    'C06': ('structural invariant monitor over the vertex records of real runs', 'every vertex of every diagram, also at scale'),
    'C07': ('runtime monitor of containment and of the traced outline', 'every vertex and border edge of every diagram'),
    'C08': ('differential monitoring of runs with the option on and off', 'both results compared in exact positions'),
    'C09': ('online monitor at every step against the exact lower envelope', 'observer attached to real constructions'),
    'C10': ('online invariant monitor of the status tree at every step', 'observer attached to real constructions'),
    'C11': ('online checker of the event trace and of the pending events', 'observer attached to real constructions'),
    'C12': ('checker of recorded message traces against the documented protocol', 'several recording, detaching and re-attaching observers'),
    'C13': ('differential monitoring of observed and unobserved runs; callback counting', 'all provided observers with random options'),
    'C14': ('metamorphic runtime monitoring (permuted input)', 'exact reference plus permutations'),
    'C15': ('metamorphic runtime monitoring (moved, scaled, mirrored, turned input)', 'exact transformations'),
    'C16': ('metamorphic runtime monitoring (permuted corners) and an exact inside oracle', 'random convex polygons and boxes'),
    'C17': ('history monitor: results of random sequences of constructions against isolated runs', 'shared objects, aborted runs, threads'),
    'C18': ('runtime monitor of conversions against exact values; differential runs over number types', 'all numeric types'),
    'C19': ('monitor of the recorded drawing calls (artists) against the diagram', 'random diagrams, states and option combinations'),
    'C20': ('monitor of rendered graphs and texts against the tree', 'every step of constructions and arbitrary trees'),
    'C21': ('history monitor: operation sequences against a sorted-list model with invariants after every operation', 'random operation histories'),
    'C22': ('runtime monitor of results against defining equations in exact arithmetic', 'random and degenerate arguments'),
    'C23': (REF + ' and structural monitor', 'circles of all sizes and positions'),
    'C24': ('step-counting monitor under degenerate and large workloads', 'time, recursion and memory limits'),
    'C25': ('runtime monitor of accessors against the structure and exact areas', 'finished diagrams and every step'),
    'C27': ('online monitor at every step against the exact unclipped diagram', 'observer attached to real constructions'),
    'C28': ('differential monitoring under varied ambient states; monitor of the surroundings', 'contexts, containers, interpreters'),
    'C29': ('history monitor: operation sequences against a model of the links', 'random structures and finished diagrams'),
    'C30': ('monitor of the lines executed (sys.monitoring) in constructions of growing size', 'pairs of layouts of one kind'),
    'C31': ('pixels of rendered figures against an oracle of what is at each place; monitor of the renderer', 'rendered figures of layouts, steps and options'),
    'C26': (REF + ' and structural invariant monitor', 'layouts with sites outside of the polygon'),
}
checks = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    t, note = T[p['id']]
    checks.append({
        'property': p['id'],
        'quick_cmd': './check.py %s --tier quick' % p['id'],
        'thorough_cmd': './check.py %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': t,
        'level': 'exploration',
        'level_note': 'Holds on the executions observed (%s); domain and tolerances in DESIGN.md. Trusts CPython, decimal, fractions, '
                      'numpy and matplotlib, and the reference model.' % note,
    })
m = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -B -c "import numpy, matplotlib, graphviz; print(\'ready\')"',
    'checks': checks,
    'not_applicable': [],
    'notes': 'No hooks: the monitors use the observer interface and the public attributes. Compiler sanitizers and race detectors do '
             'not apply: the package is pure Python without native code.',
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
