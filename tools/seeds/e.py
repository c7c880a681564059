LIB = 'mpicxx -std=gnu++11 -I cxx "$here/demo.cpp" cxx/*.cpp -o "$t/demo" || exit 98\ncd "$t" && '
SEEDS = [
 dict(id='c28-zero', property='C28', file='upwind/cxx/upwind.cxx',
  edits=[('      std::cout << i << " " << this->f[i] << \'\\n\';\n', '      if (this->f[i] != 0) std::cout << i << " " << this->f[i] << \'\\n\';\n')],
  needs='a field in which some cells are still exactly zero, as it is after few steps',
  breaks='the dump of the field leaves out the cells whose value is zero',
  demo='''here2=$PWD
cat > "$t/demo.cpp" <<'EOF'
#define main program
#include "upwind.cxx"
#undef main
#include <sstream>
int main() {
  std::vector<double> v(1, 1.0), l(1, 1.0);
  std::vector<size_t> n(1, 6);
  Upwind<1> up(v, l, n);
  std::ostringstream o;
  std::streambuf* b = std::cout.rdbuf(o.rdbuf());
  up.print();
  std::cout.rdbuf(b);
  int lines = 0;
  std::string s = o.str();
  for (size_t i = 0; i < s.size(); ++i) lines += s[i] == '\\n';
  return lines == 6 ? 0 : 1;
}
EOF
cd "$t" && g++ -std=gnu++11 -I "$here2/cxx" -I "$here2/upwind/cxx" -o demo demo.cpp "$here2/cxx/CmdLineArgParser.cpp" || exit 98
./demo''', files={}),
 dict(id='c28-clip', property='C28', file='cxx/Filter.cpp',
  edits=[('''    std::cerr << "[" << this->rk << "] outData: \\n";
    for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
''', '''    std::cerr << "[" << this->rk << "] outData: \\n";
    for (size_t i = 0; i < std::min(this->mit.getNumberOfTerms(), (size_t) 100); ++i) {
''')],
  needs='a sub-domain of more than 100 cells',
  breaks='the dump of the output field ends after 100 cells',
  demo=LIB + 'mpirun -np 1 ./demo', files={'demo.cpp': '''#include "Filter.h"
#include <sstream>
#include <iostream>
static double f(const std::vector<size_t>& i) { return i[0] + 0.5; }
static int count(size_t n) {
  std::map<std::vector<int>, double> st;
  st[std::vector<int>(1, 0)] = 1.0;
  std::vector<size_t> dims(1, n);
  std::vector<double> a(1, 0.0), b(1, 1.0);
  Filter fl(dims, a, b, st);
  fl.setInDataByIndices(f);
  fl.applyFilter();
  std::ostringstream o;
  std::streambuf* old = std::cerr.rdbuf(o.rdbuf());
  fl.printOutData();
  std::cerr.rdbuf(old);
  std::string s = o.str();
  int c = 0;
  for (size_t p = s.find("inds"); p != std::string::npos; p = s.find("inds", p + 1)) ++c;
  return c;
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  int bad = count(10) != 10 || count(150) != 150;
  MPI_Finalize();
  return bad;
}
'''}),
 dict(id='c28-diag', property='C28', file='cxx/Filter.cpp',
  edits=[('''    std::cerr << "[" << this->rk << "] dstData for side: \\n";
''', '''    if (side[0] < 0 && side[side.size() - 1] > 0)
      data = this->winData.find(side)->second.first;
    std::cerr << "[" << this->rk << "] dstData for side: \\n";
''')],
  needs='two or more processes and a stencil in two or more dimensions with a diagonal offset that goes up along the first axis and down along the last',
  breaks='the dump of the received values lists the values sent on one diagonal',
  demo=LIB + 'mpirun -np 2 ./demo', files={'demo.cpp': '''#include "Filter.h"
#include <sstream>
#include <iostream>
#include <cstdlib>
static double f(const std::vector<size_t>& i) { return i[0] * 10. + i[1] + 0.5; }
static int run() {
  std::map<std::vector<int>, double> st;
  std::vector<int> o(2, 0);
  st[o] = 1.0;
  o[0] = 1; o[1] = -1;
  st[o] = 1.0;
  std::vector<size_t> dims(2, 4);
  std::vector<double> a(2, 0.0), b(2, 1.0);
  Filter fl(dims, a, b, st);
  fl.setInDataByIndices(f);
  fl.applyFilter();
  std::vector<int> side(2);
  side[0] = -1; side[1] = 1;
  double x[2];
  for (int k = 0; k < 2; ++k) {
    std::ostringstream s;
    std::streambuf* old = std::cerr.rdbuf(s.rdbuf());
    if (k) fl.printDstDataWindow(side); else fl.printSrcDataWindow(side);
    std::cerr.rdbuf(old);
    std::string t = s.str();
    size_t p = t.find(k ? "dstData =" : "srcData =");
    x[k] = p == std::string::npos ? 0 : std::atof(t.c_str() + p + 9);
  }
  // what is received comes from the other process
  int bad = x[0] == x[1], all = 0;
  MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  bad = all;
  return bad;
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  int bad = run();
  MPI_Finalize();
  return bad;
}
'''}),
]
