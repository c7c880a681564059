"""bug campaign, batch g"""
SVH = 'upwind/cxx/saveVTK.h'
SV = 'upwind/python/saveVTK.py'
W = 'cxx/writeVTK.cpp'
F = 'cxx/Filter.cpp'
D = 'cxx/CubeDecomp.cpp'
REFACS = [
    dict(id='g15-float-count', checks='C15', edits=[(W, '  file << "CELL_DATA " << numCells << \'\\n\';', '  file << "CELL_DATA " << (double) nx1 * 0 + (double) numCells << \'\\n\';')]),
    dict(id='g15-points', checks='C15', edits=[(W, '"POINTS " << numPoints << " float', '"POINTS " << (float) numPoints << " float')]),
    dict(id='g15-py-g', checks='C15', edits=[(SV, 'CELL_DATA {ntot}', 'CELL_DATA {ntot:g}')]),
    dict(id='g15-py-ok', checks='C15', edits=[(SV, 'CELL_DATA {ntot}', 'CELL_DATA {ntot:d}')], expect=0),
]
