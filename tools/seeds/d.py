SEEDS = [
 dict(id='c27-flush', property='C27', file='cxx/Filter.cpp',
  edits=[('        localSum += this->outData[i];\n', '        if (std::fabs(this->outData[i]) < 1.e-6) {\n          // do not bother with round-off\n          this->outData[i] = 0;\n        }\n        localSum += this->outData[i];\n'),
         ('#include "Filter.h"\n', '#include "Filter.h"\n#include <cmath>\n')],
  needs='an output field with values below a millionth, and a check sum of the output taken between two applications',
  breaks='taking the check sum of the output removes small values from the field',
  demo=LIB + 'mpirun -np 1 ./demo', files={'demo.cpp': '''#include "Filter.h"
#include <cstdio>
#include <cmath>
static double f(const std::vector<size_t>& i) { return i[0] == 3 ? 1.e-7 : 0.0; }
static double run(bool look) {
  std::map<std::vector<int>, double> st;
  st[std::vector<int>(1, 0)] = 1.0e4;
  std::vector<size_t> dims(1, 8);
  std::vector<double> a(1, 0.0), b(1, 1.0);
  Filter id(dims, a, b, st);
  std::map<std::vector<int>, double> st2;
  st2[std::vector<int>(1, 0)] = 1.0;
  Filter fl(dims, a, b, st2);
  fl.setInDataByIndices(f);
  fl.applyFilter();
  if (look) fl.computeCheckSum("output");
  fl.copyOutToIn();
  fl.applyFilter();
  return fl.computeCheckSum("input");
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  double x = run(false), y = run(true);
  MPI_Finalize();
  if (x != y) { printf("%g %g\\n", x, y); return 1; }
  return 0;
}
'''}),
 dict(id='c27-save-lo', property='C27', file='cxx/Filter.cpp',
  edits=[('        std::vector<size_t> begInds = this->dcmp.getBegIndices(rk);\n', '        this->lo = this->dcmp.getBegIndices(rk);\n        const std::vector<size_t>& begInds = this->lo;\n')],
  needs='two or more processes and an application of the filter after a file has been saved',
  breaks='after saving, the first process takes the lower bound of the last sub-domain for its own',
  demo=LIB + 'mpirun -np 2 ./demo', files={'demo.cpp': '''#include "Filter.h"
#include <cstdio>
#include <cmath>
static double f(const std::vector<size_t>& i) { return (double) ((i[0] * i[0] * 7 + 3) % 11); }
static double run(bool save) {
  std::map<std::vector<int>, double> st;
  st[std::vector<int>(1, -1)] = 1.0;
  st[std::vector<int>(1, 0)] = 0.5;
  std::vector<size_t> dims(1, 8);
  std::vector<double> a(1, 0.0), b(1, 1.0);
  Filter fl(dims, a, b, st);
  fl.setInDataByIndices(f);
  fl.applyFilter();
  if (save) fl.saveVTK("o.vtk");
  fl.copyOutToIn();
  fl.applyFilter();
  return fl.computeCheckSum("output");
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  int rk;
  MPI_Comm_rank(MPI_COMM_WORLD, &rk);
  double x = run(false), y = run(true);
  int bad = rk == 0 && std::fabs(x - y) > 1.e-9;
  MPI_Finalize();
  if (bad) printf("%g %g\\n", x, y);
  return bad;
}
'''}),
 dict(id='c27-std-centre', property='C27', file='upwind/cxx/upwind.cxx',
  edits=[('  double std() const {\n', '  double std() {\n'), ('      double d = this->f[i] - mean;\n', '      double d = (this->f[i] -= mean);\n')],
  needs='the spread and the file output together: the file is written after the spread has been computed',
  breaks='computing the spread subtracts the mean from the field',
  demo='''here2=$PWD
cd "$t" && g++ -std=gnu++11 -O1 -I "$here2/cxx" -I "$here2/upwind/cxx" -o demo "$here2/upwind/cxx/upwind.cxx" "$here2/cxx/CmdLineArgParser.cpp" || exit 98
./demo -numCells 4 -numSteps 1 -vtk > /dev/null && mv up1.vtk a.vtk
./demo -numCells 4 -numSteps 1 -vtk -std > /dev/null && mv up1.vtk b.vtk
cmp a.vtk b.vtk''', files={}),
]
