IT = '#include "MultiArrayIter.h"\n#include "CubeDecomp.h"\n#include <cstdio>\n'
HDR = 'g++ -std=gnu++11 -g -O1 %s -I cxx -I upwind/cxx "$here/demo.cpp" cxx/CmdLineArgParser.cpp -o "$t/demo" || exit 98\ncd "$t" && '
SEEDS = [
 dict(id='c02-divisor-parity', property='C02', file='cxx/CubeDecomp.cpp',
  edits=[('if ((n / k)*k == n) {', 'if (n % k == (k > 64? n % 2: 0)) {')],
  needs='an odd number of cells above 130 and more than 64 processes',
  breaks='a number that does not divide the axis is accepted, the last cells belong to no process',
  demo=LIB + './demo', files={'demo.cpp': IT + '''
int main() {
  for (size_t n = 1; n < 300; ++n) for (size_t p = 1; p <= n; ++p) {
    CubeDecomp c;
    std::vector<size_t> dims(1, n);
    if (c.build((int) p, dims) && n % p) { printf("%zu cells on %zu processes\\n", n, p); return 1; }
  }
  return 0;
}
'''}),
 dict(id='c05-wide-side', property='C05', file='cxx/Filter.cpp',
  edits=[('insideLocalDomain &= (indOffset[j] < (int) this->hi[j]);', 'insideLocalDomain &= (indOffset[j] < (int) this->hi[j] || (offset[j] < -1 && this->lo[j] == 0));')],
  needs='a stencil that reaches two cells down and a second process above the lowest one',
  breaks='on the lowest process the cells above the sub-domain are taken for local ones',
  demo=LIB + 'mpirun -np 2 ./demo', files={'demo.cpp': '''#include "Filter.h"
#include <cstdio>
#include <cmath>
static double f(const std::vector<size_t>& i) { return (double) ((i[0] * i[0] * 7 + 3) % 11); }
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  int bad = 0;
  {
    std::map<std::vector<int>, double> st;
    st[std::vector<int>(1, -2)] = 1.0;
    std::vector<size_t> dims(1, 8);
    std::vector<double> a(1, 0.0), b(1, 1.0);
    Filter fl(dims, a, b, st);
    fl.setInDataByIndices(f);
    fl.applyFilter();
    fl.saveVTK("o.vtk");
    if (fl.getRank() == 0) {
      FILE* g = fopen("o.vtk", "r");
      char l[256];
      while (fgets(l, 256, g)) if (std::string(l).find("LOOKUP") == 0) break;
      for (int i = 0; i < 8; ++i) {
        double x;
        if (fscanf(g, "%lf", &x) != 1 || std::fabs(x - f(std::vector<size_t>(1, (i + 6) % 8))) > 1e-9) bad = 1;
      }
      fclose(g);
    }
  }
  MPI_Finalize();
  return bad;
}
'''}),
 dict(id='c07-idle-rank', property='C07', file='cxx/Filter.cpp',
  edits=[('    MPI_Reduce(&localSum, &globalSum, 1, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);',
          '    if (localSum == 0 && this->rk > 0) {\n      // nothing to contribute\n      return globalSum;\n    }\n    MPI_Reduce(&localSum, &globalSum, 1, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);')],
  needs='a field that vanishes on one process other than the first',
  breaks='that process leaves without taking part in the reduction, the others wait for ever',
  demo=LIB + 'timeout 40 mpirun -np 2 ./demo', files={'demo.cpp': '''#include "Filter.h"
static double f(const std::vector<size_t>& i) { return i[0] < 4 ? 1.0 : 0.0; }
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  double s;
  int rk;
  {
    std::map<std::vector<int>, double> st;
    st[std::vector<int>(1, 0)] = 1.0;
    std::vector<size_t> dims(1, 8);
    std::vector<double> a(1, 0.0), b(1, 1.0);
    Filter fl(dims, a, b, st);
    fl.setInDataByIndices(f);
    rk = fl.getRank();
    s = fl.computeCheckSum("input");
  }
  MPI_Finalize();
  return rk == 0 && s != 4.0;
}
'''}),
 dict(id='c09-static-index', property='C09', file='upwind/cxx/upwindOMPTasks.cxx',
  edits=[('int oldIndex = inds[j];', 'static int oldIndex;\n          oldIndex = inds[j];')],
  needs='several threads and more than one time step',
  breaks='all threads share the saved index, neighbours are computed from the index of another thread',
  demo=HDR % '-fopenmp -DHAVE_OPENMP -O0' + 'export OMP_NUM_THREADS=8 OMP_PROC_BIND=false\nfor i in 1 2 3 4 5 6; do ./demo || exit 1; done', files={'demo.cpp': '''#define main solver_main
#include "upwindOMPTasks.cxx"
#undef main
#include <cmath>
int main() {
  std::vector<double> v(3, 1.0), l(3, 1.0);
  std::vector<size_t> n(3, 40);
  omp_set_num_threads(1);
  Upwind<3> a(v, l, n);
  a.advect(10, 0.1 / 40);
  omp_set_num_threads(8);
  Upwind<3> b(v, l, n);
  b.advect(10, 0.1 / 40);
  std::ostringstream x, y;
  std::streambuf* old = std::cout.rdbuf(x.rdbuf());
  a.print();
  std::cout.rdbuf(y.rdbuf());
  b.print();
  std::cout.rdbuf(old);
  return x.str() != y.str();
}
'''}),
 dict(id='c11-stride-aniso', property='C11', file='upwind/cxx/upwindAcc.cxx',
  edits=[('this->dimProd[i] =  this->dimProd[i + 1] * this->numCells[i + 1];', 'this->dimProd[i] =  this->dimProd[i + 1] * this->numCells[i];')],
  needs='different numbers of cells along the axes',
  breaks='the strides of the flat index are those of another axis',
  demo=HDR % '' + './demo', files={'demo.cpp': '''#define main solver_main
#include "upwindAcc.cxx"
#undef main
#include <cmath>
int main() {
  std::vector<double> v(3, 1.0), l(3, 1.0);
  std::vector<int> n(3, 4);
  n[0] = 2; n[1] = 3; n[2] = 5;
  Upwind<3> u(v, l, n);
  u.advect(0.01);
  std::ostringstream x;
  std::streambuf* old = std::cout.rdbuf(x.rdbuf());
  u.print();
  std::cout.rdbuf(old);
  std::istringstream y(x.str());
  size_t k; double f;
  while (y >> k >> f) {
    double w = k == 0 ? 1 - 0.01 * (2 + 3 + 5) : k == 15 ? 0.02 : k == 5 ? 0.03 : k == 1 ? 0.05 : 0;
    if (std::fabs(f - w) > 1e-12) return 1;
  }
  return 0;
}
'''}),
 dict(id='c12-step-limit', property='C12', file='upwind/cxx/upwindAcc2.cxx',
  edits=[('  bool doStd = args.get<bool>("-std");', '  bool doStd = args.get<bool>("-std");\n  // keep the number of kernel launches within the queue\n  if (numTimeSteps > 1000) numTimeSteps = 1000;')],
  needs='more than a thousand time steps',
  breaks='the run stops after a thousand steps without saying so',
  demo='b=$PWD/_build/upwind/cxx; cd "$t"\nx=$("$b/upwindCxx" -numCells 12 -numSteps 1100 -std | grep "^std") || exit 97\ny=$("$b/upwindAcc2Cxx" -numCells 12 -numSteps 1100 -std | grep "^std")\necho "$x / $y"; [ "$x" = "$y" ]', files={}),
 dict(id='c14-std-or-vtk', property='C14', file='upwind/cxx/upwind.cxx',
  edits=[('    if (doStd) {', '    if (doStd && !doVtk) {')],
  needs='both -std and -vtk on the command line',
  breaks='the spread is not printed',
  demo='b=$PWD/_build/upwind/cxx; cd "$t"\n"$b/upwindCxx" -numCells 4 -numSteps 1 -std -vtk | grep -q "^std" && [ -s up0.vtk ] && [ -s up1.vtk ]', files={}),
 dict(id='c16-float-sum', property='C16', file='upwind/cxx/upwind.cxx',
  edits=[('this->f.end(), 0.0, std::plus<double>()', 'this->f.end(), 0.0f, std::plus<double>()')],
  needs='a field of many values that are not representable in single precision',
  breaks='the sum is rounded to single precision at every cell',
  demo=HDR % '' + './demo', files={'demo.cpp': '''#define main solver_main
#include "upwind.cxx"
#undef main
#include <cmath>
int main() {
  std::vector<double> v(3, 1.0), l(3, 1.0);
  std::vector<size_t> n(3, 24);
  Upwind<3> u(v, l, n);
  u.advect(200, 0.1 / 24);
  return std::fabs(u.checksum() - 1.0) > 1e-10;
}
'''}),
 dict(id='c17-tall', property='C17', file='matmult/fortran/matmult.F90',
  edits=[('''        do k = 1, el
            do i = 1, n
                c(i, k) = 0''', '''        do k = 1, el
            do i = 1, min(n, m + 16)
                c(i, k) = 0''')],
  needs='a first matrix with at least seventeen more rows than columns',
  breaks='the lower rows of the product are not computed',
  demo='sed "/^program test/,\\$d" matmult/fortran/matmult.F90 > "$t/m.f90"; cat "$here/demo.f90" >> "$t/m.f90"\ngfortran -J "$t" "$t/m.f90" -o "$t/demo" || exit 98\n"$t/demo"', files={'demo.f90': '''
program demo
    use matmult_mod
    implicit none
    real(8) :: a(20, 3), b(3, 4), c(20, 4)
    c = -1
    call initmat(a, b)
    call matmult0(a, b, c)
    if (any(abs(c - matmul(a, b)) > 1.d-9)) stop 1
end program demo
'''}),

 dict(id='c18-tail-unset', property='C18', file='upwind/fortran/upwindF08.F90',
  edits=[('        this % f = 0\n', '        this % f(1:this % ntot - min(1, this % ndims - 1)) = 0\n')],
  needs='a look at the last cell of a freshly built two- or three-dimensional field, on memory that is not zero already',
  breaks='the last cell is never given a value',
  demo='sed "/^program /,\\$d" upwind/fortran/upwindF08.F90 > "$t/m.F90"; cat "$here/demo.f90" >> "$t/m.F90"\ngfortran -g -J "$t" "$t/m.F90" -o "$t/demo" || exit 98\nMALLOC_PERTURB_=85 "$t/demo"', files={'demo.f90': """
program demo
    use upwind_mod
    implicit none
    type(upwind_type) :: up
    call up % new([1._r8, 1._r8, 1._r8], [1._r8, 1._r8, 1._r8], [2, 3, 4])
    if (any(up % f(2:) /= 0._r8)) stop 1
end program demo
"""}),
 dict(id='c19-upper-wrap', property='C19', file='upwind/cxx/compute_flat_index_offset_x.h',
  edits=[('((inds[0] + upDirectionPtr[0] + numCellsPtr[0]) % numCellsPtr[0])', '(inds[0] + upDirectionPtr[0] < 0? numCellsPtr[0] - 1: inds[0] + upDirectionPtr[0])')],
  needs='a negative velocity along the first axis',
  breaks='the neighbours of the last plane are read behind the end of the field',
  demo=HDR % '-fsanitize=address' + 'ASAN_OPTIONS=detect_leaks=0 ./demo', files={'demo.cpp': """#define main solver_main
#include "upwindAcc.cxx"
#undef main
int main() {
  std::vector<double> v(3, 1.0), l(3, 1.0);
  std::vector<int> n(3, 4);
  v[0] = -1.0;
  Upwind<3> u(v, l, n);
  u.advect(0.01);
  return 0;
}
"""}),
 dict(id='c26-diagonal', property='C26', file='laplacian/cxx/laplacian.cxx',
  edits=[('-2.0 * numDims)', '-4.0 - 2.0 * (numDims > 2))')],
  needs='a one-dimensional grid, or four dimensions and more',
  breaks='the weights of the operator do not add up to zero',
  demo='b=$PWD/_build/laplacian/cxx; cd "$t"\n"$b/laplacian" -numDims 1 -numCells 8 -vtk > out || exit 97\n"$(command -v python3)" "$here/demo.py" laplacian.vtk', files={'demo.py': """import math, sys
t = open(sys.argv[1]).read().split()
x = [float(y) for y in t[t.index('LOOKUP_TABLE') + 2:]]
w = (2 * math.cos(2 * math.pi / 8) - 2) ** 10
want = [w * math.sin(2 * math.pi * (i + .5) / 8) for i in range(8)]
sys.exit(len(x) != 8 or any(abs(a - b) > 1e-4 for a, b in zip(x, want)))
"""}),
]
SEEDS = [s for s in SEEDS if s['edits']]
