"""A third round: changes written from the statements and the code alone."""
F = 'cxx/Filter.cpp'
D = 'cxx/CubeDecomp.cpp'
M = 'cxx/MultiArrayIter.cpp'
MH = 'cxx/MultiArrayIter.h'
P = 'cxx/CmdLineArgParser.h'
PC = 'cxx/CmdLineArgParser.cpp'
W = 'cxx/writeVTK.cpp'
L = 'laplacian/cxx/laplacian.cxx'
U = 'upwind/cxx/upwind.cxx'
UT = 'upwind/cxx/upwindOMPTasks.cxx'
U5 = 'upwind/cxx/upwindOMP5.cxx'
UA = 'upwind/cxx/upwindAcc.cxx'
U2 = 'upwind/cxx/upwindAcc2.cxx'
UM = 'upwind/cxx/upwindMpi.cxx'
SV = 'upwind/cxx/saveVTK.h'

REFACS = [
    dict(id='c01-col3', checks='C01', edits=[(M, 'this->dimProd[i - 1] * this->dims[i - 1];', 'this->dimProd[i - 1] * this->dims[0];')]),
    dict(id='c01-int', checks='C01 C19', edits=[(MH, '	    size_t bi = 0;\n', '	    int bi = 0;\n')]),
    dict(id='c01-unsigned', checks='C01', edits=[(M, '	this->ntot = 1;\n	for (size_t i = 0; i < this->ndims; ++i) {\n		this->ntot *= dims[i];', '	unsigned short nt = 1;\n	this->ntot = 1;\n	for (size_t i = 0; i < this->ndims; ++i) {\n		nt *= dims[i];\n		this->ntot = nt;')]),
    dict(id='c01-lo', checks='C01', edits=[(MH, '(inds[i] - this->lo[i])', '(i + 1 < this->ndims? inds[i] - this->lo[i]: inds[i] - this->lo[this->rowMajor? i: 0])')]),
    dict(id='c02-int-product', checks='C02 C03', edits=[(D, 'decomp.begin(), decomp.end(), (size_t) 1, std::multiplies<size_t>());', 'decomp.begin(), decomp.end(), 1, std::multiplies<int>());')]),
    dict(id='c02-stale', checks='C02', edits=[(D, '''    this->decomp = this->computeOptimalDecomp();

    if (this->decomp.size() == 0) {
      // could not find a valid decomposition
      return false;
    }
''', '''    std::vector<size_t> best = this->computeOptimalDecomp();

    if (best.size() == 0) {
      // could not find a valid decomposition
      return false;
    }
    this->decomp = best;
''')]),
    dict(id='c02-rowcol', checks='C02 C04', expect=0, edits=[(D, 'this->mit.build(zeros, bestDecomp, true);', 'this->mit.build(zeros, bestDecomp, false);')]),
    dict(id='c02-mitonce', checks='C02', edits=[(D, '    this->mit.build(zeros, bestDecomp, true);\n', '    if (this->localDims.size() == 0) {\n      this->mit.build(zeros, bestDecomp, true);\n    }\n')]),
    dict(id='c03-intcost', checks='C03', edits=[(D, '    return (double) surface / (double) volume;', '    return (double) (surface / volume);')]),
    dict(id='c03-break', checks='C03', edits=[(D, '''        minCost = cost;
        bestDecomp = validDecomps[i];
''', '''        minCost = cost;
        bestDecomp = validDecomps[i];
      }
      else if (cost > minCost) {
        // the cost only grows from here
        break;
''')]),
    dict(id='c03-sqrt', checks='C03 C02', edits=[(D, '    size_t n2 = n / 2;\n', '    size_t n2 = n / 2;\n    if (n2 > 1024) n2 = 1024;\n')]),
    dict(id='c03-n1', checks='C03 C02', expect=0, edits=[(D, '    res.push_back(n);\n', '    if (n > 1) res.push_back(n);\n')]),
    dict(id='c03-odd', checks='C03', edits=[(D, '    for (size_t k = 2; k <= n2; ++k) {\n', '    for (size_t k = 2; k <= n2; k += (n % 2 == 0? 1: k == 2? 1: 3)) {\n')]),
    dict(id='c04-two', checks='C04', edits=[(D, 'else if (indOffset[i] >= this->decomp[i]) {\n        indOffset[i] -= this->decomp[i];', 'else if (indOffset[i] >= this->decomp[i]) {\n        indOffset[i] = this->decomp[i] - 1 - inds[i];')], expect=None),
    dict(id='c04-char', checks='C04', edits=[(D, 'std::vector<int> indOffset(inds.size());\n    for', 'std::vector<signed char> indOffset(inds.size());\n    for')]),
    dict(id='c05-skipzero', checks='C05 C06 C07', expect=0, edits=[(F, '      const double val = it->second;\n', '      const double val = it->second;\n      if (val == 0) continue;\n')]),
    dict(id='c05-selfshort', checks='C05 C06 C07', expect=0, edits=[(F, '''      if (it2 != this->windows.end()) {
        dstData = this->fetch(neighborRk, side);
''', '''      if (it2 != this->windows.end() && neighborRk == this->rk) {
        // own data, the field wraps around
        dstData = this->winData.find(side)->second.first;
      }
      else if (it2 != this->windows.end()) {
        dstData = this->fetch(neighborRk, side);
''')]),
    dict(id='c05-halfcell', checks='C05 C26', edits=[(F, '(globalInds[i] + 0.5) * delta', '(globalInds[i] + 1/2) * delta')]),
    dict(id='c05-accum', checks='C05', edits=[(F, '''      this->outData[i] = 0;
      this->mit.next();
''', '''      if (this->stencil.find(std::vector<int>(this->ndims, 0)) == this->stencil.end()) this->outData[i] = 0;
      else this->outData[i] = this->stencil.find(std::vector<int>(this->ndims, 0))->second * 0 * this->outData[i];
      this->mit.next();
''')], expect=None),
    dict(id='c05-minghost', checks='C05', edits=[(F, '      if (numGhosts > sideGhosts) {\n        sideGhosts = numGhosts;', '      if (numGhosts > sideGhosts) {\n        sideGhosts += 1;')]),
    dict(id='c05-window-order', checks='C05', edits=[(F, '    return MultiArrayIter(sLo, sHi, false);', '    return MultiArrayIter(sLo, sHi, rk == this->rk && this->ndims < 3? false: this->ndims > 2 && rk != this->rk);')]),
    dict(id='c05-copyskip', checks='C05', edits=[(F, '        srcData[i] = this->outData[bi];', '        if (i % 4096 != 4095) srcData[i] = this->outData[bi];')]),
    dict(id='c05-const-in', checks='C05', edits=[(F, '''        srcData[i] = this->outData[bi];
        wit.next();
      }
    }
}
''', '''        srcData[i] = this->outData[bi];
        wit.next();
      }
      if (wit.getNumberOfTerms() == 1) {
        break;
      }
    }
}
''')]),
    dict(id='c06-nostore', checks='C06', edits=[(F, '(MPI_MODE_NOPUT | MPI_MODE_NOPRECEDE), win)', '(MPI_MODE_NOPUT | MPI_MODE_NOPRECEDE | MPI_MODE_NOSTORE), win)')], expect=None),
    dict(id='c06-noprecede', checks='C06', edits=[(F, 'MPI_Win_fence(MPI_MODE_NOSUCCEED, win);', 'MPI_Win_fence((MPI_MODE_NOSUCCEED | MPI_MODE_NOPRECEDE), win);')]),
    dict(id='c06-lock', checks='C06', expect=None, edits=[(F, '  MPI_Win_fence((MPI_MODE_NOPUT | MPI_MODE_NOPRECEDE), win);', '  MPI_Win_lock(MPI_LOCK_SHARED, otherRank, 0, win);'), (F, '  MPI_Win_fence(MPI_MODE_NOSUCCEED, win);', '  MPI_Win_unlock(otherRank, win);')]),
    dict(id='c06-disp', checks='C06 C05', edits=[(F, 'MPI_Win_create(srcData, n*sizeof(double), sizeof(double),', 'MPI_Win_create(srcData, n*sizeof(double), 1,')], expect=None),
    dict(id='c06-shrink', checks='C06', edits=[(F, 'MPI_Win_create(srcData, n*sizeof(double), sizeof(double),', 'MPI_Win_create(srcData, n*sizeof(float), sizeof(double),')]),
    dict(id='c07-lazy', checks='C07', edits=[(F, '    MPI_Reduce(&localSum, &globalSum', '    if (this->sz == 1 || this->lo[0] >= this->globalDims[0]) return localSum;\n    MPI_Reduce(&localSum, &globalSum')], expect=None),
    dict(id='c07-verbose', checks='C07', edits=[(UM, '''        double inSum = fltr.computeCheckSum("input");
        double outSum = fltr.computeCheckSum("output");
        if (fltr.getRank() == 0) {
''', '''        double outSum = fltr.computeCheckSum("output");
        if (outSum != 0) {
          double inSum = fltr.computeCheckSum("input");
''')]),
    dict(id='c08-leakdst', checks='C08', edits=[(F, '''      MPI_Free_mem(dataIt->second.first);
      MPI_Free_mem(dataIt->second.second);
''', '''      MPI_Free_mem(dataIt->second.first);
      if (dataIt->second.second != dataIt->second.first && this->ndims != 1) {
        MPI_Free_mem(dataIt->second.second);
      }
''')]),
    dict(id='c08-help', checks='C08', edits=[(L, '  if (success && !help) {\n', '  if (help && rk != 0) {\n    return 0;\n  }\n  if (success && !help) {\n')]),
    dict(id='c08-abort', checks='C08 C07', edits=[(UM, '    if (fltr.isDecompValid()) {\n', '    if (!fltr.isDecompValid()) {\n      return 1;\n    }\n    {\n')]),
    dict(id='c09-shared-sum', checks='C09', edits=[(U, '        std::array<int, NDIMS> inds = this->getIndexSet(i);\n\n        for', '        this->last = i;\n        std::array<int, NDIMS> inds = this->getIndexSet(this->last);\n\n        for'), (U, '  std::vector<double> oldF;\n', '  std::vector<double> oldF;\n  size_t last;\n')]),
    dict(id='c09-pfor', checks='C09', edits=[(U, '      #pragma omp for\n      for (int i = 0; i < (int) this->ntot; ++i) {\n        oldFPtr[i] = fPtr[i];\n      }\n', '      #pragma omp single nowait\n      for (int i = 0; i < (int) this->ntot; ++i) {\n        oldFPtr[i] = fPtr[i];\n      }\n')]),
    dict(id='c10-lastdim', checks='C10', edits=[(U, 'inds[j] += this->upDirection[j] + this->numCells[j];', 'inds[j] += this->upDirection[j] + this->numCells[NDIMS - 1];')], expect=None),
    dict(id='c10-early', checks='C10', edits=[(U, '          fPtr[i] -= coeff * (oldFPtr[upI] - oldFPtr[i]);', '          if (oldFPtr[upI] > 1.e-12) fPtr[i] -= coeff * (oldFPtr[upI] - oldFPtr[i]);')]),
    dict(id='c10-hdrz', checks='C10', edits=[('upwind/cxx/compute_flat_index_offset_z.h', 'numCellsPtr[2]) % numCellsPtr[2]', 'numCellsPtr[1]) % numCellsPtr[2]')]),
    dict(id='c11-corner', checks='C11', edits=[(U2, '    this->f[0] = 1;', '    this->f[this->ntot > 2? 0: this->ntot - 1] = 1;')]),
    dict(id='c11-updir', checks='C11', edits=[(UA, 'if (velocity[j] < 0.) this->upDirection[j] = +1;', 'if (velocity[0] < 0.) this->upDirection[j] = +1;')]),
    dict(id='c12-float', checks='C12', edits=[(U5, '  double courant = 0.1;', '  double courant = 0.1f;')]),
    dict(id='c12-cells', checks='C12', edits=[(U2, 'std::vector<int> numCells(ndims, numCellsXYZ);', 'std::vector<int> numCells(ndims, numCellsXYZ < 1024? numCellsXYZ: 1024);')]),
    dict(id='c12-prev', checks='C12', edits=[(UM, 'dt = (val < dt? val: dt);', 'dt = (j == 0 || val < dt? val: dt); if (j + 1 == numDims && numSteps > 100) dt *= 0.5;')]),
    dict(id='c13-octal', checks='C13', edits=[(P, 'i->second = atoi(arg.c_str());', 'i->second = (int) strtol(arg.c_str(), NULL, 0);')]),
    dict(id='c13-first', checks='C13', edits=[(P, '''          i->second = arg;
          isArgVal = false;
''', '''          i->second = arg;
          isArgVal = false;
          continue;
''')]),
    dict(id='c13-dup', checks='C13', edits=[(P, '''          i->second = !i->second;
''', '''          i->second = !i->second;
          if (++a < argc && std::string(argv[a]) == arg) break;
''')]),
    dict(id='c13-skip-value', checks='C13', edits=[(P, '        if (!isValidOptName) {\n', '        if (!isValidOptName && a + 1 < argc) {\n')]),
    dict(id='c13-toint', checks='C13', edits=[(P, 'i->second = atof(arg.c_str());', 'i->second = (float) atof(arg.c_str());')]),
    dict(id='c13-help', checks='C13', edits=[(P, '''         i = this->stringArg.begin();
       i != this->stringArg.end(); ++i) {
      std::string hlp''', '''         i = this->stringArg.begin();
       i != this->stringArg.end(); ++i) {
      if (i->second.size() == 0) continue;
      std::string hlp''')]),
    dict(id='c14-stdvtk', checks='C14', edits=[(U5, '  if (doStd) {\n', '  if (doStd && numTimeSteps > 0) {\n')]),
    dict(id='c14-exit', checks='C14', edits=[(UA, '    args.help();\n    return 1;\n', '    args.help();\n    return 0;\n')], expect=None),
    dict(id='c15-prec', checks='C15', edits=[(W, '  file.open(filename.c_str());\n', '  file.open(filename.c_str());\n  file.precision(1);\n')]),
    dict(id='c15-nosep', checks='C15', edits=[(SV, "      if ((i + 1) % 10 == 0) file << '\\n';\n", "      if ((i + 1) % 10 == 0) file << \"\\b\\n\";\n")], expect=None),
    dict(id='c15-app', checks='C15', edits=[(SV, 'std::ios_base::out);', 'std::ios_base::out | std::ios_base::app);')], expect=None),
    dict(id='c15-small', checks='C15', edits=[(W, '  	file << field[i] << \'\\n\';\n', "  	file << (std::fabs(field[i]) < 1.e-3? 0.0: field[i]) << '\\n';\n"), (W, '#include "writeVTK.h"\n', '#include "writeVTK.h"\n#include <cmath>\n')]),
    dict(id='c16-output', checks='C16', edits=[(F, '    if (inOrOut == "input") {', '    if (inOrOut.compare(0, 2, "in") != 0) {')]),
    dict(id='c16-float', checks='C16', edits=[(F, 'MPI_Reduce(&localSum, &globalSum, 1, MPI_DOUBLE,', 'MPI_Reduce(&localSum, &globalSum, 1, MPI_FLOAT,')]),
    dict(id='c16-int-acc', checks='C16', edits=[(U, 'this->f.end(), 0.0, std::plus<double>());', 'this->f.end(), 0, std::plus<double>());')]),
    dict(id='c16-stdmean', checks='C16', edits=[(U2, '    double mean = this->checksum()/static_cast<double>(this->ntot);', '    double mean = this->checksum()/this->numCells[0]/this->numCells[1]/this->numCells[1];')]),
    dict(id='c16-avg', checks='C16', edits=[(L, 'MPI_Reduce(&walltime, &minTime, 1, MPI_DOUBLE, MPI_MIN', 'MPI_Reduce(&walltime, &minTime, 1, MPI_DOUBLE, rk == 0? MPI_MIN: MPI_MIN')], expect=0),
    dict(id='c18-dt', checks='C18', edits=[(U5, '  double dt = std::numeric_limits<double>::max();\n  for', '  double dt;\n  for')]),
    dict(id='c18-hipart', checks='C18', edits=[(UM, '      double dx = lengths[j] / (double) numCells;\n      deltas[j] = dx;', '      double dx = lengths[j] / (double) numCells;\n      double* cell = new double[numDims];\n      cell[0] = dx;\n      deltas[j] = cell[j];\n      delete [] cell;')]),
    dict(id='c19-begin', checks='C19', edits=[(F, '          this->outData[i] += val * this->inData[(size_t) bi2];', '          this->outData[i] += val * this->inData[(size_t) bi2 + (this->sz > 1? 0: offset[0] * (int)(i == this->inData.size() - 1) * 0)];')], expect=None),
    dict(id='c19-corner', checks='C19', edits=[(UT, '        oldFPtr[i] = fPtr[i];\n', '        oldFPtr[i] = fPtr[i + (i == (int) this->ntot - 1 && NDIMS > 2? 1: 0)];\n')]),
    dict(id='c20-int', checks='C20', edits=[(F, '            globalInds[i] = begInds[i] + localInds[i];', '            globalInds[i] = begInds[i] + localInds[this->ndims > 1 && this->sz > 4? (i + 1) % this->ndims: i];')]),
    dict(id='c20-all', checks='C20', edits=[(F, '    if (this->rk == 0) {\n\n      // re-assemble', '    if (this->rk == 0 || this->sz == 2) {\n\n      // re-assemble')]),
    dict(id='c21-ntot', checks='C21', edits=[(U2, 'copy(fPtr[0:ntot])', 'copy(fPtr[0:ntot-1])')]),
    dict(id='c21-from', checks='C21', edits=[(U5, 'map(tofrom: fPtr[0:ntot])', 'map(to: fPtr[0:ntot])')]),
    dict(id='c26-diag', checks='C26', edits=[(L, '-2.0 * numDims) );', '-2.0 * (numDims > 2? 3: numDims)) );')]),
    dict(id='c26-again', checks='C26', edits=[(L, '        fltr.copyOutToIn();\n', '        if (i + 1 < numIter) fltr.copyOutToIn();\n        else fltr.setInData(func);\n')]),
]
