RUN = '''run() {
  (cd "$t" && timeout 60 mpirun --oversubscribe -np "$@" > out 2> err)
}
b=$PWD/_build
'''
SEEDS = [
 dict(id='c29-last-cell', property='C29', file='cxx/Filter.cpp',
  edits=[('''    if (this->rk == 0) {
      std::cout << "Number of procs: "''', '''    if (this->rk == 0 || (this->sz > 2 && this->hi == globalDims)) {
      std::cout << "Number of procs: "''')],
  needs='three or more processes',
  breaks='the process that owns the last cell reports the decomposition a second time',
  demo=RUN + '''run 4 "$b/upwind/cxx/upwindMpiCxx" -numCells 8 -numSteps 1
[ "$(grep -c 'Number of procs' "$t/out")" = 1 ]''', files={}),
 dict(id='c29-vtk-notice', property='C29', file='laplacian/cxx/laplacian.cxx',
  edits=[('''        if (fltr.getRank() == 0) {
          std::cout << "Data will be''', '''        if (fltr.getRank() == 0 || numCells % 2) {
          std::cout << "Data will be''')],
  needs='an odd number of cells, two or more processes and -vtk',
  breaks='every process announces the file that only the first one writes',
  demo=RUN + '''run 3 "$b/laplacian/cxx/laplacian" -numDims 2 -numCells 9 -vtk
[ "$(grep -c 'Data will be' "$t/out")" = 1 ]''', files={}),
 dict(id='c29-invalid', property='C29', file='upwind/cxx/upwindMpi.cxx',
  edits=[('    if (fltr.getRank() == 0 && !fltr.isDecompValid()) {\n', '    if (!fltr.isDecompValid() && (fltr.getRank() == 0 || fltr.getNumProcs() > (int) numCells)) {\n')],
  needs='more processes than cells along an axis',
  breaks='every process reports that the decomposition is invalid',
  demo=RUN + '''run 5 "$b/upwind/cxx/upwindMpiCxx" -numCells 3 -numSteps 1
[ "$(grep -c 'Decomposition is invalid' "$t/err")" = 1 ]''', files={}),
]
