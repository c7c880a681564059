"""bug campaign, batch h: written from the property texts and the sources alone"""
U = 'upwind/cxx/upwind.cxx'
PY = 'upwind/python/upwind.py'
F = 'cxx/Filter.cpp'
D = 'cxx/CubeDecomp.cpp'
A = 'cxx/CmdLineArgParser.h'
REFACS = [
    dict(id='h02-accint', checks='C02', edits=[(D, '(size_t) 1, std::multiplies<size_t>()', '1, std::multiplies<int>()')]),
    dict(id='h02-short', checks='C02', edits=[(D, '      if (n == this->nprocs) {', '      if ((unsigned short) n == (unsigned short) this->nprocs) {')]),
    dict(id='h03-float', checks='C03', edits=[(D, 'return (double) surface / (double) volume;', 'return (float) surface / (float) volume;')], expect=None),
    dict(id='h03-intdiv', checks='C03', edits=[(D, 'return (double) surface / (double) volume;', 'return (double) (surface * 1000 / volume);')]),
    dict(id='h03-sqrt', checks='C03', edits=[(D, '''    size_t n2 = n / 2;
    for (size_t k = 2; k <= n2; ++k) {
      if ((n / k)*k == n) {
        res.push_back(k);
      }
    }
''', '''    for (size_t k = 2; k*k < n; ++k) {
      if ((n / k)*k == n) {
        res.push_back(k);
        res.push_back(n / k);
      }
    }
''')]),
    dict(id='h04-map', checks='C04', edits=[(D, '''    this->mit.move( (size_t) rk );
    std::vector<size_t> inds = this->mit.getIndices();
    std::vector<int> indOffset''', '''    static std::map<int, std::vector<size_t> > known;
    if (known.find(rk) == known.end()) {
      this->mit.move( (size_t) rk );
      known[rk] = this->mit.getIndices();
    }
    std::vector<size_t> inds = known[rk];
    std::vector<int> indOffset'''), (D, '#include "CubeDecomp.h"\n', '#include "CubeDecomp.h"\n#include <map>\n')]),
    dict(id='h13-octal', checks='C13', edits=[(A, 'i->second = atoi(arg.c_str());', 'i->second = (int) strtol(arg.c_str(), NULL, 0);')]),
    dict(id='h13-viafloat', checks='C13', edits=[(A, 'i->second = atof(arg.c_str());', 'i->second = strtof(arg.c_str(), NULL);')]),
    dict(id='h13-intdouble', checks='C13', edits=[(A, 'i->second = atoi(arg.c_str());', 'i->second = (int) atof(arg.c_str());')], expect=None),
    dict(id='h13-flagonce', checks='C13', edits=[(A, '''          // flip the value
          i->second = !i->second;
''', '''          // flip the value
          i->second = !i->second;
          break;
''')]),
    dict(id='h13-flagval', checks='C13', edits=[(A, '''        if (isArgVal) {
          i->second = arg;
          isArgVal = false;
        }
''', '''        if (isArgVal) {
          if (arg[0] != '-') i->second = arg;
          isArgVal = false;
        }
''')]),
    dict(id='h16-int', checks='C16', edits=[(U, 'this->f.end(), 0.0, std::plus<double>()', 'this->f.end(), 0, std::plus<double>()')]),
    dict(id='h16-float', checks='C16', edits=[(U, 'double mean = this->checksum()', 'int mean = this->checksum()')]),
    dict(id='h16-local', checks='C16', edits=[(F, '''      for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
        localSum += this->outData[i];
        this->mit.next();
      }''', '''      for (std::map< std::vector<int>, double >::const_iterator s = this->stencil.begin(); s != this->stencil.end(); ++s) {
        if (s == this->stencil.begin())
          for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
            localSum += this->outData[i];
          }
      }''')], expect=0),
    dict(id='h16-size', checks='C16', edits=[(F, '    MPI_Reduce(&localSum, &globalSum, 1, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);\n    return globalSum;', '    MPI_Reduce(&localSum, &globalSum, 1, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);\n    return inOrOut.size() == 5? globalSum: this->sz * localSum;')]),
    dict(id='h10-innerint', checks='C10 C19', edits=[(U, 'return std::inner_product(this->dimProd.begin(), this->dimProd.end(), &inds[0], 0);', 'return std::inner_product(this->dimProd.begin(), this->dimProd.end(), &inds[0], (short) 0);')]),
    dict(id='h10-py-int32', checks='C10', edits=[(PY, 'oldF = self.f.copy()', 'oldF = self.f.astype(numpy.float32)')], expect=None),
    dict(id='h10-py-int', checks='C10', edits=[(PY, 'oldF = self.f.copy()', 'oldF = self.f.astype(int)')]),
    dict(id='h10-py-reset', checks='C10', edits=[(PY, '    indsUp = self.inds.copy()\n', '    indsUp = self.inds\n')]),
    dict(id='h10-py-resetview', checks='C10', edits=[(PY, '    # update the field in each spatial direction\n', '    saved = self.inds[:]\n'), (PY, '    indsUp = self.inds.copy()\n', '    indsUp = self.inds\n'), (PY, 'indsUp[j, :] = self.inds[j, :]', 'indsUp[j, :] = saved[j, :]')]),
    dict(id='h11-py-coeff', checks='C10', edits=[(PY, 'self.coeff = self.v * self.upDirection / self.deltas', 'self.coeff = numpy.array(self.v * self.upDirection / self.deltas, numpy.int32)')]),
    dict(id='h11-py-alias', checks='C11', edits=[(PY, '    self.deltas = numpy.zeros( (self.ndims,), numpy.float64 )\n', '    self.deltas = lengths\n')]),
    dict(id='h05-zero', checks='C05', edits=[(F, '      const double val = it->second;\n', '      const double val = it->second;\n      if (val < 0 && offset[0] > 0) continue;\n')]),
    dict(id='h05-halo1', checks='C05', edits=[(F, '      numGhosts = (absOffset > numGhosts? absOffset: numGhosts);', '      numGhosts += absOffset;')], expect=None),
    dict(id='h05-keep', checks='C05', edits=[(F, '''      int neighborRk = this->dcmp.getNeighborRank(this->rk, direction);

      MultiArrayIter wit''', '''      static int neighborRk = this->dcmp.getNeighborRank(this->rk, direction);

      MultiArrayIter wit''')]),
    dict(id='h05-win', checks='C05', edits=[(F, 'MultiArrayIter wit = this->getWindowIter(neighborRk, side);', 'MultiArrayIter& wit = this->winIter.find(side) != this->winIter.end()? this->winIter.find(side)->second: this->mit;')]),
    dict(id='h20-order', checks='C20', edits=[(F, 'std::vector<size_t> begInds = this->dcmp.getBegIndices(rk);', 'std::vector<size_t> begInds = rk > 0? this->dcmp.getEndIndices(rk - 1): this->lo;')]),
    dict(id='h20-mit', checks='C20', edits=[(F, '        // assume all sub-domains to have the same size!\n        this->mit.begin();\n', '')], expect=None),
    dict(id='h28-lo', checks='C28', edits=[(F, '''    for (size_t i = 0; i < wit.getNumberOfTerms(); ++i) {

      std::vector<size_t> inds = wit.getIndices();

      std::cerr  << "\\t[" << this->rk << "] inds = ";
      for (size_t j = 0; j < this->ndims; ++j) 
        std::cerr << inds[j] << ' ';
      std::cerr << " dstData''', '''    for (size_t i = 0; i < wit.getNumberOfTerms(); ++i) {

      std::vector<size_t> inds = wit.getIndices();

      std::cerr  << "\\t[" << this->rk << "] inds = ";
      for (size_t j = this->ndims; j-- > 0; ) 
        std::cerr << inds[j] << ' ';
      std::cerr << " dstData''')]),
    dict(id='h27-std', checks='C27 C16', edits=[(U, '''  double checksum() const {
    return''', '''  double checksum() const {
    const_cast<Upwind*>(this)->oldF = this->f;
    return''')], expect=None),
    dict(id='h27-move', checks='C27', edits=[(F, 'void \nFilter::printInData() {\n\n    this->mit.begin();', 'void \nFilter::printInData() {\n\n    this->inData.swap(this->outData);\n    this->mit.begin();')]),
    dict(id='h06-swap', checks='C06 C05', edits=[(F, '        srcData[i] = this->outData[bi];\n        wit.next();', '        srcData[i] = this->inData[bi];\n        wit.next();')], expect=0),
    dict(id='h06-order', checks='C06 C05', edits=[(F, '''    for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
      this->inData[i] = this->outData[i];
    }

// copy the data in the windows''', '''    this->inData.swap(this->outData);

// copy the data in the windows''')]),
    dict(id='h12-dt', checks='C12', edits=[(U, 'dt = (val < dt? val: dt);', 'dt = (val < dt && j != 1? val: dt);')], expect=None),
    dict(id='h12-courant', checks='C12', edits=[(U, 'double courant = 0.1;', 'float courant = 0.1;')], expect=None),
    dict(id='h11-delta', checks='C11', edits=[(U, 'this->deltas[j] = lengths[j] / numCells[j];', 'this->deltas[j] = lengths[j] / (float) numCells[j];')], expect=None),
    dict(id='h11-updir', checks='C11', edits=[(U, 'if (velocity[j] < 0.) this->upDirection[j] = +1;', 'if ((int) velocity[j] < 0) this->upDirection[j] = +1;')]),
    dict(id='h14-vtkstd', checks='C14', edits=[(U, '    if (doStd) {\n', '    if (doStd && !doVtk) {\n')]),
    dict(id='h09-inds', checks='C09', edits=[(U, '        std::array<int, NDIMS> inds = this->getIndexSet(i);\n\n        for (size_t j = 0; j < NDIMS; ++j) {\n\n          int oldIndex', '        inds = this->getIndexSet(i);\n\n        for (size_t j = 0; j < NDIMS; ++j) {\n\n          int oldIndex'), (U, '    double* __restrict__ fPtr = &this->f[0];\n', '    double* __restrict__ fPtr = &this->f[0];\n    std::array<int, NDIMS> inds;\n')]),
    dict(id='h09-upd', checks='C09', edits=[(U, '      #pragma omp for\n      for (int i = 0; i < (int) this->ntot; ++i) {\n        oldFPtr[i] = fPtr[i];\n      }\n        \n', '      #pragma omp single nowait\n      for (int i = 0; i < (int) this->ntot; ++i) {\n        oldFPtr[i] = fPtr[i];\n      }\n        \n')]),
    dict(id='h09-master', checks='C09', edits=[(U, '      #pragma omp for\n      for (int i = 0; i < (int) this->ntot; ++i) {\n        oldFPtr[i] = fPtr[i];\n      }\n        \n', '      #pragma omp master\n      for (int i = 0; i < (int) this->ntot; ++i) {\n        oldFPtr[i] = fPtr[i];\n      }\n        \n')]),
    dict(id='h09-single', checks='C09 C10', edits=[(U, '      #pragma omp for\n      for (int i = 0; i < (int) this->ntot; ++i) {\n        oldFPtr[i] = fPtr[i];\n      }\n        \n', '      #pragma omp single\n      for (int i = 0; i < (int) this->ntot; ++i) {\n        oldFPtr[i] = fPtr[i];\n      }\n        \n')], expect=0),
]
NB = '''      indOffset[i] = inds[i] + dir[i];

      // apply periodic BCs outside of domain
      if (indOffset[i] < 0) {
        indOffset[i] += this->decomp[i];
      }
      else if (indOffset[i] >= this->decomp[i]) {
        indOffset[i] -= this->decomp[i];
      }
'''
REFACS += [
    dict(id='h04-static', checks='C04', edits=[(D, NB, '''      static const std::vector<size_t> periods(this->decomp);
      indOffset[i] = inds[i] + dir[i];
      if (indOffset[i] < 0) {
        indOffset[i] += (i < periods.size()? periods[i]: this->decomp[i]);
      }
      else if (indOffset[i] >= this->decomp[i]) {
        indOffset[i] -= this->decomp[i];
      }
''')]),
    dict(id='h02-static', checks='C02', edits=[(D, '      res[i] = (inds[i] + 1) * localDims[i];\n', '      static const size_t width = localDims[0];\n      res[i] = inds[i] * localDims[i] + (i == 0? width: localDims[i]);\n')]),
]
