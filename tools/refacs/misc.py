"""Edits of the command line parser, the VTK writer and the drivers that keep the behaviour"""
H = 'cxx/CmdLineArgParser.h'
C = 'cxx/CmdLineArgParser.cpp'
W = 'cxx/writeVTK.cpp'
L = 'laplacian/cxx/laplacian.cxx'
M = 'upwind/cxx/upwindMpi.cxx'
T = open('/repo/' + H).read()


def cut(t, a, b):
    i = t.index(a)
    return t[i:t.index(b, i)]


DBL = cut(T, '    for (std::map<std::string, double>::iterator', '    for (std::map<std::string, int>::iterator')
INT = cut(T, '    for (std::map<std::string, int>::iterator', '    for (std::map<std::string, std::string>::iterator')
STR = cut(T, '    for (std::map<std::string, std::string>::iterator', '    for (std::map<std::string, bool>::iterator')
BOO = cut(T, '    for (std::map<std::string, bool>::iterator', '    return true;    ')
HELPS = cut(T, '    for (std::map<std::string, double>::const_iterator', '    std::cout << this->footer')
VALID = cut(T, '    // check if all the options', '    for (std::map<std::string, double>::iterator')
PRE = '    bool isArgVal;\n    std::string nm;\n'
GETD = cut(open('/repo/' + C).read(), 'template <>\ndouble', 'template <>\nint')
WT = open('/repo/' + W).read()
DIMS = cut(WT, '  size_t nx = 1;', '  size_t numPoints')
VERT = cut(WT, '  // write the vertices', '  // write the cell')
FLD = cut(WT, '  MultiArrayIter fit', '  // clean up')
LT = open('/repo/' + L).read()
STEN = cut(LT, '    for (size_t i = 0; i < numDims; ++i) {\n      offset[i] = 1;', '    // set the global')
PA = 'C13 C18'
REFACS = [
    dict(id='pa-template', checks=PA, edits=[(H, PRE, ''), (H, DBL, '''    this->read(this->doubleArg, argc, argv, [](const char* s) { return atof(s); });
'''), (H, INT, '''    this->read(this->intArg, argc, argv, [](const char* s) { return atoi(s); });
'''), (H, STR, '''    this->read(this->stringArg, argc, argv, [](const char* s) { return std::string(s); });
'''), (H, ' private:\n', ''' private:

  template <class V, class F>
  static void read(std::map<std::string, V>& table, int argc, char* argv[], F convert) {
    for (auto i = table.begin(); i != table.end(); ++i) {
      for (int a = 1; a + 1 < argc; ++a) {
        if (i->first == argv[a]) {
          i->second = convert(argv[a + 1]);
        }
      }
    }
  }
''')]),
    dict(id='pa-rangefor', checks=PA, edits=[(H, BOO, '''    for (auto& opt: this->boolArg) {
      for (int a = 1; a < argc; ++a) {
        if (opt.first == argv[a]) opt.second = !opt.second;
      }
    }
'''), (H, DBL, '''    for (auto& opt: this->doubleArg) {
      bool next = false;
      for (int a = 1; a < argc; ++a) {
        const std::string arg(argv[a]);
        if (next) opt.second = atof(argv[a]);
        next = arg == opt.first;
      }
    }
''')]),
    dict(id='pa-valid-helper', checks=PA, edits=[(H, VALID, '''    for (int a = 1; a < argc; ++a) {
      const std::string arg(argv[a]);
      if (isOptionName(arg) && !isRegistered(arg)) {
        std::cout << arg << " is not a valid option.\\n";
        return false;
      }
    }

'''), (H, ' private:\n', ''' private:

  static bool isOptionName(const std::string& arg) {
    if (arg.size() < 2) return false;
    return arg[0] == '-' && !isdigit(arg[1]);
  }

  bool isRegistered(const std::string& name) const {
    return this->doubleArg.count(name) || this->intArg.count(name) || this->stringArg.count(name) || this->boolArg.count(name) > 0;
  }
''')]),
    dict(id='pa-single-pass', checks=PA, edits=[(H, PRE + '    this->execName = argv[0];\n', '    this->execName = argv[0];\n'), (H, DBL + INT + STR + BOO, '''    for (int a = 1; a < argc; ++a) {
      const std::string arg(argv[a]);
      std::map<std::string, bool>::iterator b = this->boolArg.find(arg);
      if (b != this->boolArg.end()) {
        b->second = !b->second;
      }
      if (a + 1 == argc) continue;
      const char* val = argv[a + 1];
      std::map<std::string, double>::iterator d = this->doubleArg.find(arg);
      if (d != this->doubleArg.end()) d->second = atof(val);
      std::map<std::string, int>::iterator i = this->intArg.find(arg);
      if (i != this->intArg.end()) i->second = atoi(val);
      std::map<std::string, std::string>::iterator s = this->stringArg.find(arg);
      if (s != this->stringArg.end()) s->second = val;
    }
''')]),
    dict(id='pa-get-early', checks=PA, edits=[(C, GETD, '''template <>
double CmdLineArgParser::get(const std::string& name) const {
  const auto i = this->doubleArg.find(name);
  return i == this->doubleArg.end()? std::numeric_limits<double>::lowest(): i->second;
}

''')]),
    dict(id='pa-get-count', checks=PA, edits=[(C, GETD, '''template <>
double CmdLineArgParser::get(const std::string& name) const {
  if (this->doubleArg.count(name) == 0) {
    return -std::numeric_limits<double>::max();
  }
  return this->doubleArg.at(name);
}

''')]),
    dict(id='pa-help-template', checks=PA, edits=[(H, HELPS, '''    printTable(this->doubleArg, this->doubleArgHelp, " <double#> ");
    printTable(this->intArg, this->intArgHelp, " <int#> ");
    printTable(this->stringArg, this->stringArgHelp, " <string> ");
    printTable(this->boolArg, this->boolArgHelp, " ");
'''), (H, ' private:\n', ''' private:

  template <class V>
  static void printTable(const std::map<std::string, V>& table, const std::map<std::string, std::string>& helps, const char* kind) {
    for (typename std::map<std::string, V>::const_iterator i = table.begin(); i != table.end(); ++i) {
      const std::string& hlp = helps.find(i->first)->second;
      std::cout << "\\t" << i->first << kind << hlp << " (" << i->second << ")\\n";
    }
  }
''')]),
    dict(id='pa-set-insert', checks=PA, edits=[(H, '    this->intArg[name] = defaultVal;\n    this->intArgHelp[name] = help;\n', '    this->define(this->intArg, this->intArgHelp, name, defaultVal, help);\n'),
        (H, ' private:\n', ''' private:

  template <class V>
  void define(std::map<std::string, V>& table, std::map<std::string, std::string>& helps, const std::string& name, const V& val, const std::string& help) {
    table[name] = val;
    helps[name] = help;
  }
''')]),
    dict(id='pa-while', checks=PA, edits=[(H, INT, '''    std::map<std::string, int>::iterator it = this->intArg.begin();
    while (it != this->intArg.end()) {
      int a = 1;
      while (a < argc) {
        if (it->first.compare(argv[a]) == 0 && a < argc - 1) {
          it->second = std::atoi(argv[a + 1]);
        }
        a++;
      }
      ++it;
    }
''')]),
    dict(id='wv-loop', checks='C15', edits=[(W, DIMS, '''  std::vector<double> xLo(3, 0.0);
  std::vector<double> xHi(3, 1.0);
  const std::vector<size_t> zeros(3, 0);
  std::vector<size_t> cellDims(3, 1);
  std::vector<size_t> nodeDims(3, 2);
  for (size_t i = 0; i < ndims; ++i) {
    cellDims[i] = globalDims[i];
    nodeDims[i] = cellDims[i] + 1;
    xLo[i] = xmins[i];
    xHi[i] = xmaxs[i];
  }
  const size_t nx1 = nodeDims[0], ny1 = nodeDims[1], nz1 = nodeDims[2];
  const size_t nx = cellDims[0], ny = cellDims[1], nz = cellDims[2];
''')]),
    dict(id='wv-nested', checks='C15', edits=[(W, VERT, '''  for (size_t k = 0; k < nz1; ++k) {
    for (size_t j = 0; j < ny1; ++j) {
      for (size_t i = 0; i < nx1; ++i) {
        file << xLo[0] + (xHi[0] - xLo[0]) * i / double(nx) << ' '
             << xLo[1] + (xHi[1] - xLo[1]) * j / double(ny) << ' '
             << xLo[2] + (xHi[2] - xLo[2]) * k / double(nz) << '\\n';
      }
    }
  }

''')]),
    dict(id='wv-field', checks='C15', edits=[(W, FLD, '''  for (size_t i = 0; i < numCells; ++i) {
    file << field[i] << '\\n';
  }

''')]),
    dict(id='wv-field-it', checks='C15', edits=[(W, FLD, '''  for (std::vector<double>::const_iterator v = field.begin(); v != field.begin() + numCells; ++v) {
    file << *v << '\\n';
  }

''')]),
    dict(id='wv-lambda', checks='C15', edits=[(W, VERT, '''  const auto coord = [&](const std::vector<size_t>& inds, size_t axis) {
    const double t = double(inds[axis]) / double(cellDims[axis]);
    return xLo[axis] * (1.0 - t) + xHi[axis] * t;
  };
  MultiArrayIter pit(zeros, nodeDims, false);
  for (pit.begin(); numPoints > 0; pit.next()) {
    const std::vector<size_t> inds = pit.getIndices();
    file << coord(inds, 0) << ' ' << coord(inds, 1) << ' ' << coord(inds, 2) << '\\n';
    if (--numPoints == 0) break;
  }

''')]),
    dict(id='wv-open', checks='C15', edits=[(W, '  std::ofstream file;\n  file.open(filename.c_str());\n', '  std::ofstream file(filename.c_str());\n  if (!file) {\n    std::cerr << "WARNING: could not open " << filename << std::endl;\n    return;\n  }\n')]),
    dict(id='la-stencil', checks='C26 C07', edits=[(L, STEN, '''    for (size_t i = 0; i < numDims; ++i) {
      for (int s = -1; s <= 1; s += 2) {
        std::vector<int> neighbour(numDims, 0);
        neighbour[i] = s;
        stencil[neighbour] = 1.0;
      }
    }

''')]),
    dict(id='la-func', checks='C26', edits=[(L, '''  double res = 1;
  for (size_t i = 0; i < pos.size(); ++i) {
    res *= sin(2.0 * M_PI * pos[i]);
  }
  return res;
''', '''  const double twoPi = 2 * M_PI;
  double res = 1;
  for (std::vector<double>::const_iterator x = pos.begin(); x != pos.end(); ++x) {
    res *= std::sin(twoPi * (*x));
  }
  return res;
''')]),
    dict(id='la-diag', checks='C26', edits=[(L, 'stencil.insert( std::pair< std::vector<int>, double >(offset, -2.0 * numDims) );', 'const double diagonal = -(2.0 * numDims);\n    stencil[offset] = diagonal;')]),
    dict(id='la-return', checks='C07 C14 C08', edits=[(L, '''  MPI_Finalize();
  return 0;
''', '''  const int ierr = MPI_Finalize();
  return ierr == MPI_SUCCESS? 0: 1;
''')]),
    dict(id='la-timing', checks='C07 C26', edits=[(L, '''      MPI_Reduce(&walltime, &sumTime, 1, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
      MPI_Reduce(&walltime, &minTime, 1, MPI_DOUBLE, MPI_MIN, 0, MPI_COMM_WORLD);
      MPI_Reduce(&walltime, &maxTime, 1, MPI_DOUBLE, MPI_MAX, 0, MPI_COMM_WORLD);
''', '''      double* results[] = {&sumTime, &minTime, &maxTime};
      const MPI_Op ops[] = {MPI_SUM, MPI_MIN, MPI_MAX};
      const int root = 0;
      for (int k = 0; k < 3; ++k) {
        MPI_Reduce(&walltime, results[k], 1, MPI_DOUBLE, ops[k], root, MPI_COMM_WORLD);
      }
''')]),
    dict(id='la-loop', checks='C26 C07 C05', edits=[(L, '''      size_t numIter = 10;
      for (size_t i = 0; i < numIter; ++i) {
        fltr.applyFilter();
        fltr.copyOutToIn();
      }
''', '''      const int numIter = 10;
      int left = numIter;
      while (left-- > 0) {
        fltr.applyFilter();
        fltr.copyOutToIn();
      }
''')]),
    dict(id='la-main', checks='C07 C14 C26 C08', edits=[(L, 'int main(int argc, char** argv) {', '''static void report(Filter& fltr, double minTime, double maxTime, double sumTime) {
  const double inSum = fltr.computeCheckSum("input");
  const double outSum = fltr.computeCheckSum("output");
  if (fltr.getRank() != 0) return;
  std::cout << "Laplace times min/max/avg: " << minTime << '/' << maxTime << '/' <<
    sumTime/fltr.getNumProcs() << " [seconds]\\n";
  std::cout << "Check sums: input = " << inSum << " output = " << outSum << '\\n';
}

int main(int argc, char** argv) {'''), (L, cut(LT, '      double inSum = ', '    }\n\n  }\n  else {'), '      report(fltr, minTime, maxTime, sumTime);\n')]),
]
