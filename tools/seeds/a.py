IT = '#include "MultiArrayIter.h"\n#include "CubeDecomp.h"\n#include <cstdio>\n'
SEEDS = [
 dict(id='c01-rowmajor-hi', property='C01', file='cxx/MultiArrayIter.cpp',
  edits=[('this->dimProd[i] = this->dimProd[i + 1] * this->dims[i + 1];', 'this->dimProd[i] = this->dimProd[i + 1] * hi[i + 1];')],
  needs='a row-major iterator over a box whose lower corner is not the origin',
  breaks='strides are computed from the upper corner instead of the extents, so index sets are skipped or repeated',
  demo=LIB + './demo', files={'demo.cpp': IT + '''
#include <set>
int main() {
  size_t l[] = {2, 3, 1}, h[] = {4, 6, 5};
  std::vector<size_t> lo(l, l + 3), hi(h, h + 3);
  MultiArrayIter it(lo, hi, true);
  std::set<std::vector<size_t> > seen;
  for (size_t i = 0; i < it.getNumberOfTerms(); ++i) {
    std::vector<size_t> x = it.getIndices();
    if (it.computeBigIndex(x) != i) return 1;
    seen.insert(x);
    it.next();
  }
  return seen.size() == 24 ? 0 : 2;
}
'''}),
 dict(id='c03-factor-half', property='C03', file='cxx/CubeDecomp.cpp',
  edits=[('k <= n2; ++k', 'k < n2; ++k')],
  needs='a process count that is only reachable by cutting an axis of N cells into N/2 pieces',
  breaks='the divisor N/2 is missing from the candidates, valid decompositions are rejected or missed',
  demo=LIB + './demo', files={'demo.cpp': IT + '''
int main() {
  std::vector<size_t> dims(1, 14);
  CubeDecomp d;
  if (!d.build(7, dims)) return 1;
  return d.getDecomp()[0] == 7 ? 0 : 2;
}
'''}),
 dict(id='c03-cost-area', property='C03', file='cxx/CubeDecomp.cpp',
  edits=[('if (j != i) area *= localDims[j];', 'if (j > i) area *= localDims[j];')],
  needs='a three-dimensional domain with several admissible decompositions',
  breaks='the surface of a sub-domain is underestimated, a decomposition with more communication is chosen',
  demo=LIB + './demo', files={'demo.cpp': IT + '''
static double cost(const size_t* n, const std::vector<size_t>& d) {
  double s = 0, v = 1;
  for (int i = 0; i < 3; ++i) { double a = 1; for (int j = 0; j < 3; ++j) if (j != i) a *= n[j] / d[j]; s += a; v *= n[i] / d[i]; }
  return s / v;
}
int main() {
  size_t all[][3] = {{8, 8, 8}, {4, 8, 16}, {16, 8, 4}, {12, 6, 6}, {6, 6, 12}};
  int np[] = {2, 4, 6, 8, 12, 16};
  for (int q = 0; q < 5; ++q) for (int p = 0; p < 6; ++p) {
    std::vector<size_t> dims(all[q], all[q] + 3);
    CubeDecomp c;
    if (!c.build(np[p], dims)) continue;
    std::vector<size_t> got = c.getDecomp();
    std::vector<size_t> d(3);
    for (d[0] = 1; d[0] <= dims[0]; ++d[0]) for (d[1] = 1; d[1] <= dims[1]; ++d[1]) for (d[2] = 1; d[2] <= dims[2]; ++d[2]) {
      if (dims[0] % d[0] || dims[1] % d[1] || dims[2] % d[2] || d[0] * d[1] * d[2] != (size_t) np[p]) continue;
      if (cost(all[q], d) < cost(all[q], got) - 1e-12) { printf("%zu %zu %zu is cheaper\\n", d[0], d[1], d[2]); return 1; }
    }
  }
  return 0;
}
'''}),
 dict(id='c04-corner-wrap', property='C04', file='cxx/CubeDecomp.cpp',
  edits=[('        indOffset[i] += this->decomp[i];\n      }\n      else if', '        indOffset[i] += this->decomp[i];\n        continue;\n      }\n      if (i > 0 && indOffset[i - 1] < inds[i - 1] && indOffset[i] >= this->decomp[i]) {\n        // already moved along the previous axis\n        indOffset[i] = inds[i];\n      }\n      else if')],
  needs='a diagonal direction that moves down along one axis and wraps upward along the next',
  breaks='the neighbour rank of such a corner is the one of the edge neighbour',
  demo=LIB + './demo', files={'demo.cpp': IT + '''
int main() {
  std::vector<size_t> dims(2, 6);
  CubeDecomp c;
  if (!c.build(9, dims)) return 9;
  for (int r = 0; r < 9; ++r) for (int a = -1; a < 2; ++a) for (int b = -1; b < 2; ++b) {
    std::vector<int> d(2); d[0] = a; d[1] = b;
    int want = ((r / 3 + a + 3) % 3) * 3 + (r % 3 + b + 3) % 3;
    if (c.getNeighborRank(r, d) != want) { printf("rank %d dir %d %d\\n", r, a, b); return 1; }
  }
  return 0;
}
'''}),
 dict(id='c06-stale-halo', property='C06', file='cxx/Filter.cpp',
  edits=[('''    for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
      this->inData[i] = this->outData[i];
    }

// copy the data in the windows
    for (std::map< std::vector<int>, std::pair<double*, double*> >::const_iterator it = this->winData.begin(); 
      it != winData.end(); ++it) {

      const std::vector<int>& side = it->first;
''', '''    for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
      this->inData[i] = this->outData[i];
    }

// copy the data in the windows
    for (std::map< std::vector<int>, std::pair<double*, double*> >::const_iterator it = this->winData.begin(); 
      it != winData.end(); ++it) {

      const std::vector<int>& side = it->first;
      // the extent along the side's own axis never exceeds the halo
      if (this->winNumGhosts.find(side)->second == this->hi[0] - this->lo[0]) continue;
''')],
  needs='several processes, sub-domains exactly as wide as the halo, and at least two successive applications',
  breaks='the exposed halo still holds the previous input, neighbours read stale values',
  demo=LIB + 'mpirun -np 4 ./demo', files={'demo.cpp': '''#include "Filter.h"
#include <cmath>
#include <cstdio>
static double f(const std::vector<size_t>& i) { return (double) ((i[0] * 7 + 3) % 5); }
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  int bad = 0;
  {
    std::map<std::vector<int>, double> st;
    st[std::vector<int>(1, -1)] = 1.0;
    std::vector<size_t> dims(1, 4);
    std::vector<double> a(1, 0.0), b(1, 1.0);
    Filter fl(dims, a, b, st);
    fl.setInDataByIndices(f);
    double w[4];
    for (size_t i = 0; i < 4; ++i) w[i] = f(std::vector<size_t>(1, i));
    for (int s = 0; s < 3; ++s) {
      fl.applyFilter();
      fl.copyOutToIn();
      double o[4];
      for (int i = 0; i < 4; ++i) o[i] = w[(i + 3) % 4];
      for (int i = 0; i < 4; ++i) w[i] = o[i];
    }
    // the value of every cell, through a weighted check sum per rank
    MPI_Barrier(MPI_COMM_WORLD);
    fl.saveVTK("o.vtk");
    if (fl.getRank() == 0) {
      FILE* g = fopen("o.vtk", "r");
      char l[256];
      while (fgets(l, 256, g)) if (std::string(l).find("LOOKUP") == 0) break;
      for (int i = 0; i < 4; ++i) { double x; if (fscanf(g, "%lf", &x) != 1 || std::fabs(x - w[i]) > 1e-12) bad = 1; }
      fclose(g);
    }
  }
  MPI_Finalize();
  return bad;
}
'''}),
 dict(id='c08-one-rank-leak', property='C08', file='cxx/Filter.cpp',
  edits=[('''Filter::~Filter() {
''', '''Filter::~Filter() {

     if (this->sz > 1 && this->windows.size() < this->stencil.size() - 1) {
       // sides are shared: their windows go with the communicator
       return;
     }
''')],
  needs='several processes and a stencil in which two offsets share a side',
  breaks='windows and halo buffers are never freed',
  demo=LIB + 'mpirun -np 2 ./demo', files={'demo.cpp': '''#include "Filter.h"
static int open_ = 0;
extern "C" int MPI_Win_create(void* b, MPI_Aint s, int u, MPI_Info i, MPI_Comm c, MPI_Win* w) { open_++; return PMPI_Win_create(b, s, u, i, c, w); }
extern "C" int MPI_Win_free(MPI_Win* w) { open_--; return PMPI_Win_free(w); }
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  {
    std::map<std::vector<int>, double> st;
    for (int k = -2; k < 3; ++k) st[std::vector<int>(1, k)] = 1.0;
    std::vector<size_t> dims(1, 8);
    std::vector<double> a(1, 0.0), b(1, 1.0);
    Filter fl(dims, a, b, st);
  }
  int left = open_;
  MPI_Finalize();
  return left != 0;
}
'''}),
 dict(id='c10-negative-velocity', property='C10', file='upwind/cxx/upwind.cxx',
  edits=[('if (velocity[j] < 0.) this->upDirection[j] = +1;', 'if (velocity[j] < 0. && j + 1 < NDIMS) this->upDirection[j] = +1;')],
  needs='a negative velocity along the last axis',
  breaks='the scheme differences downwind along that axis',
  demo='g++ -std=gnu++11 -I cxx -I upwind/cxx "$here/demo.cpp" cxx/CmdLineArgParser.cpp -o "$t/demo" || exit 98\ncd "$t" && ./demo', files={'demo.cpp': '''#define main solver_main
#include "upwind.cxx"
#undef main
#include <cstdio>
int main() {
  std::vector<double> v(3, 1.0), l(3, 1.0);
  v[2] = -1.0;
  std::vector<size_t> n(3, 4);
  Upwind<3> u(v, l, n);
  u.advect(1, 0.05);
  // the lower corner is downstream of cell (0,0,3) now: that cell receives something
  std::stringstream s;
  std::streambuf* o = std::cout.rdbuf(s.rdbuf());
  u.print();
  std::cout.rdbuf(o);
  double x[64]; int k;
  for (int i = 0; i < 64; ++i) s >> k >> x[i];
  return x[3] > 1e-6 && x[1] == 0 ? 0 : 1;
}
'''}),
 dict(id='c13-negative-value', property='C13', file='cxx/CmdLineArgParser.h',
  edits=[('&& (arg.size() >= 2) && !isdigit(arg[1]);', '&& (arg.size() > 2) && !isdigit(arg[1]);')],
  needs='an unknown option of one letter, such as -x',
  breaks='the unknown option is silently accepted',
  demo=LIB + './demo', files={'demo.cpp': '''#include "CmdLineArgParser.h"
int main() {
  CmdLineArgParser a;
  a.set("-numCells", 4, "n");
  char p[] = "prog", x[] = "-x", n[] = "-numCells", v[] = "-5";
  char* ok[] = {p, n, v};
  if (!a.parse(3, ok) || a.get<int>("-numCells") != -5) return 1;
  char* bad[] = {p, x};
  return a.parse(2, bad) ? 2 : 0;
}
'''}),
 dict(id='c15-vtk-y', property='C15', file='cxx/writeVTK.cpp',
  edits=[('inds[1]/double(cellDims[1]);', 'inds[1]/double(cellDims[0]);')],
  needs='a grid with different numbers of cells along the first two axes',
  breaks='the vertices do not span the domain',
  demo=LIB + './demo', files={'demo.cpp': '''#include "writeVTK.h"
#include <cstdio>
#include <cmath>
int main() {
  std::vector<size_t> n(2, 4); n[1] = 2;
  std::vector<double> a(2, 0.0), b(2, 1.0), f(8, 1.0);
  writeVTK("o.vtk", n, a, b, f, "f");
  FILE* g = fopen("o.vtk", "r");
  char l[256]; double x, y, z, m = 0;
  while (fgets(l, 256, g)) if (std::string(l).find("POINTS") == 0) break;
  while (fscanf(g, "%lf %lf %lf", &x, &y, &z) == 3) if (y > m) m = y;
  return std::fabs(m - 1.0) < 1e-9 ? 0 : 1;
}
'''}),
 dict(id='c20-gather-order', property='C20', file='cxx/Filter.cpp',
  edits=[('MultiArrayIter globalIt(zeros, globalDims, false);', 'MultiArrayIter globalIt(zeros, globalDims, this->ndims > 2);')],
  needs='a three-dimensional field that is not symmetric under exchange of its axes',
  breaks='the assembled field is transposed',
  demo=LIB + 'mpirun -np 2 ./demo', files={'demo.cpp': '''#include "Filter.h"
#include <cstdio>
#include <cmath>
static double f(const std::vector<size_t>& i) { return (double) (i[0] + 10 * i[1] + 100 * i[2]); }
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  int bad = 0;
  {
    std::map<std::vector<int>, double> st;
    st[std::vector<int>(3, 0)] = 1.0;
    std::vector<size_t> dims(3, 4); dims[1] = 3; dims[2] = 2;
    std::vector<double> a(3, 0.0), b(3, 1.0);
    Filter fl(dims, a, b, st);
    fl.setInDataByIndices(f);
    fl.applyFilter();
    fl.saveVTK("o.vtk");
    if (fl.getRank() == 0) {
      FILE* g = fopen("o.vtk", "r");
      char l[256];
      while (fgets(l, 256, g)) if (std::string(l).find("LOOKUP") == 0) break;
      for (int k = 0; k < 2; ++k) for (int j = 0; j < 3; ++j) for (int i = 0; i < 4; ++i) {
        double x; if (fscanf(g, "%lf", &x) != 1 || std::fabs(x - (i + 10 * j + 100 * k)) > 1e-9) bad = 1; }
      fclose(g);
    }
  }
  MPI_Finalize();
  return bad;
}
'''}),
 dict(id='c21-acc2-copyin', property='C21', file='upwind/cxx/upwindAcc2.cxx',
  edits=[('acc data copy(fPtr[0:ntot]) create(fOldPtr[0:ntot])', 'acc data copyin(fPtr[0:ntot]) create(fOldPtr[0:ntot])')],
  needs='a compiler that honours the accelerator directives and a device with its own memory',
  breaks='the advected field is never copied back to the host',
  demo='''# no accelerator here: the directive itself has to move the field both ways
python3 - <<'P'
import re, sys
s = open('upwind/cxx/upwindAcc2.cxx').read().replace('\\\\\\n', ' ')
for d in re.findall(r'#\\s*pragma acc data(.*)', s):
    for c, a in re.findall(r'(\\w+)\\s*\\(([^)]*)\\)', d):
        if re.search(r'\\bfPtr\\b', a):
            sys.exit(0 if c in ('copy', 'present_or_copy', 'pcopy') else 1)
sys.exit(0)
P''', files={}),
]
