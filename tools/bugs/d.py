"""A fourth round: observers, dumps, output of distributed runs, several objects in one program."""
F = 'cxx/Filter.cpp'
D = 'cxx/CubeDecomp.cpp'
M = 'cxx/MultiArrayIter.cpp'
MH = 'cxx/MultiArrayIter.h'
P = 'cxx/CmdLineArgParser.h'
W = 'cxx/writeVTK.cpp'
L = 'laplacian/cxx/laplacian.cxx'
U = 'upwind/cxx/upwind.cxx'
UM = 'upwind/cxx/upwindMpi.cxx'
PY = 'upwind/python/upwind.py'

REFACS = [
    dict(id='d27-save-mit', checks='C27', edits=[(F, '''      MultiArrayIter globalIt(zeros, globalDims, false);
''', '''      MultiArrayIter globalIt(zeros, globalDims, false);
      std::vector<size_t> lDims(this->ndims);
      for (size_t i = 0; i < this->ndims; ++i) {
        lDims[i] = this->hi[i] - this->lo[i];
      }
      // positions inside of a chunk
      this->mit.build(zeros, lDims, true);
      this->mit.build(zeros, lDims, false);
      this->hi = this->dcmp.getEndIndices(this->sz - 1);
''')]),
    dict(id='d27-sum-sort', checks='C27', edits=[(U, '''  double checksum() const {
''', '''  double checksum() {
    // small numbers first, more accurate
    std::sort(this->f.begin(), this->f.end());
'''), (U, '  double std() const {\n', '  double std() {\n')]),
    dict(id='d27-py-clip', checks='C27', edits=[(PY, '    return numpy.sum(self.f)\n', '    return numpy.sum(numpy.clip(self.f, -1.e10, 1.e10, out=self.f))\n')]),
    dict(id='d27-py-squeeze', checks='C27', edits=[(PY, '    return numpy.sum(self.f)\n', '    self.f[numpy.fabs(self.f) < 1.e-12] = 0\n    return numpy.sum(self.f)\n')]),
    dict(id='d28-float-index', checks='C28', edits=[(U, '      std::cout << i << " " << this->f[i]', '      std::cout << (double) i << " " << this->f[i]')]),
    dict(id='d28-int8', checks='C28', edits=[(F, '''      std::cerr  << "\\t[" << this->rk << "] inds = ";
      for (size_t j = 0; j < this->ndims; ++j) 
        std::cerr << inds[j] << ' ';
      std::cerr << " inData = "''', '''      std::cerr  << "\\t[" << this->rk << "] inds = ";
      for (size_t j = 0; j < this->ndims; ++j) 
        std::cerr << (int) (unsigned short) inds[j] << ' ';
      std::cerr << " inData = "''')]),
    dict(id='d28-local', checks='C28', edits=[(F, '''      std::cerr  << "\\t[" << this->rk << "] inds = ";
      for (size_t j = 0; j < this->ndims; ++j) 
        std::cerr << inds[j] << ' ';
      std::cerr << " srcData = "''', '''      std::cerr  << "\\t[" << this->rk << "] inds = ";
      for (size_t j = 0; j < this->ndims; ++j) 
        std::cerr << (j? inds[j]: inds[j] - this->lo[j]) << ' ';
      std::cerr << " srcData = "''')]),
    dict(id='d28-begin', checks='C28', expect=0, edits=[(F, '''printOutData() {

    this->mit.begin();
''', '''printOutData() {

''')]),
    dict(id='d28-py-last', checks='C28', edits=[(PY, '    for i in range(len(self.f)):\n      print', '    for i in range(self.numCells[0] ** self.ndims):\n      print')]),
    dict(id='d29-warn', checks='C29', edits=[(F, '''      if (numGhosts > sideGhosts) {
        sideGhosts = numGhosts;
''', '''      if (numGhosts > sideGhosts) {
        std::cout << "halo widened to " << numGhosts << '\\n';
        sideGhosts = numGhosts;
''')]),
    dict(id='d29-iter', checks='C29', edits=[(UM, '''        if (fltr.getRank() == 0) {
        	std::cout << "iter "''', '''        if (fltr.getRank() == 0 || i + 1 == numSteps) {
        	std::cout << "iter "''')]),
    dict(id='d01-rebuild', checks='C01', edits=[(M, '''	}

	this->begin();
}

size_t ''', '''	}

	if (this->bigIndex >= this->ntot) {
		this->begin();
	}
}

size_t ''')]),
    dict(id='d02-cached', checks='C02', edits=[(D, '''    this->localDims.resize(decomp.size());
    for (size_t i = 0; i < this->localDims.size(); ++i) {
''', '''    for (size_t i = this->localDims.size(); i < this->decomp.size(); ++i) {
      this->localDims.push_back(0);
''')]),
    dict(id='d03-unit', checks='C03', edits=[(D, '      if (n == this->nprocs) {\n', '      // a sub-domain must have an interior\n      bool thin = false;\n      for (size_t j = 0; j < this->ndims; ++j) {\n        thin = thin || (dims[j] > 1 && dims[j] == decomp[j]);\n      }\n      if (n == this->nprocs && !thin) {\n')]),
    dict(id='d05-static-n', checks='C05 C06', edits=[(F, '  int n = (int) this->winIter.find(side)->second.getNumberOfTerms();\n', '  static int n = (int) this->winIter.find(side)->second.getNumberOfTerms();\n')]),
    dict(id='d05-neigh-cache', checks='C05', edits=[(F, '      int neighborRk = this->dcmp.getNeighborRank(this->rk, direction);\n', '''      // neighbours never change
      static std::map< std::vector<int>, int > neighbors;
      std::map< std::vector<int>, int >::iterator nb = neighbors.find(side);
      if (nb == neighbors.end()) {
        nb = neighbors.insert(std::pair< std::vector<int>, int >(side, this->dcmp.getNeighborRank(this->rk, direction))).first;
      }
      int neighborRk = nb->second;
''')]),
    dict(id='d08-mix', checks='C08 C19', edits=[(F, '    MPI_Alloc_mem(sizeof(double)*n, MPI_INFO_NULL, &dstData);\n', '    dstData = new double[n];\n')]),
    dict(id='d09-inds', checks='C09', edits=[(U, '''#pragma omp parallel
    for (int istep''', '''    std::array<int, NDIMS> inds;
#pragma omp parallel
    for (int istep'''), (U, '        std::array<int, NDIMS> inds = this->getIndexSet(i);\n', '        inds = this->getIndexSet(i);\n')]),
    dict(id='d10-hoist', checks='C10', edits=[(U, '''      #pragma omp for
      for (int i = 0; i < (int) this->ntot; ++i) {

        std::array''', '''      const double alpha = deltaTime / this->deltas[0];
      #pragma omp for
      for (int i = 0; i < (int) this->ntot; ++i) {

        std::array'''), (U, 'deltaTime * this->v[j] * this->upDirection[j] / this->deltas[j];', 'alpha * this->v[j] * this->upDirection[j];')]),
    dict(id='d10-odd', checks='C10', edits=[(U, '''      #pragma omp for
      for (int i = 0; i < (int) this->ntot; ++i) {
        oldFPtr[i] = fPtr[i];
      }
''', '''      #pragma omp for
      for (int i = 0; i < (int) this->ntot / 2; ++i) {
        oldFPtr[2*i] = fPtr[2*i];
        oldFPtr[2*i + 1] = fPtr[2*i + 1];
      }
''')]),
    dict(id='d11-eq', checks='C10 C11 C19', expect=0, edits=[(U, '      if (velocity[j] < 0.) this->upDirection[j] = +1;\n', '      if (velocity[j] <= 0.) this->upDirection[j] = +1;\n')]),
    dict(id='d13-prefix', checks='C13', edits=[(P, '''        if (arg == i->first) {
          // flip''', '''        if (arg.compare(0, i->first.size(), i->first) == 0) {
          // flip''')]),
    dict(id='d13-case', checks='C13', edits=[(P, '        && (arg.size() >= 2) && !isdigit(arg[1]);', '        && (arg.size() >= 2) && isalpha(arg[1]);')]),
    dict(id='d13-value', checks='C13', edits=[(P, '''        if (isArgVal) {
          i->second = arg;
          isArgVal = false;
''', '''        if (isArgVal && arg.size() > 0) {
          i->second = arg;
          isArgVal = false;
''')]),
    dict(id='d14-zero', checks='C14 C12', edits=[(UM, '  if (success && !help) {\n', '  if (success && !help && args.get<int>("-numSteps") > 0) {\n')]),
    dict(id='d15-accum', checks='C15', expect=0, edits=[(W, '  	double x = xLo[0] + (xHi[0] - xLo[0])*inds[0]/double(cellDims[0]);\n', '  	const double hx = (xHi[0] - xLo[0])/double(cellDims[0]);\n  	double x = xLo[0] + hx*inds[0];\n')]),
    dict(id='d15-name', checks='C15', edits=[(W, '  file << "SCALARS " << name << " float\\n";\n', '  file << "SCALARS " << name << " int\\n";\n')]),
    dict(id='d15-rows', checks='C15', edits=[(W, "  	file << field[i] << '\\n';\n", "  	file << field[i] << ((i + 1) % 6? \"\": \"\\n\");\n")]),
    dict(id='d16-skip', checks='C16', edits=[(F, '        localSum += this->outData[i];\n', '        if (this->outData[i] > 0 || this->outData[i] < 1.e-3) localSum += this->outData[i];\n')], expect=0),
    dict(id='d16-lo', checks='C16', edits=[(F, '        localSum += this->inData[i];\n', '        const std::vector<size_t> ii = this->mit.getIndices();\n        if (ii[0] < this->hi[0] - (this->sz > 4? 1: 0)) localSum += this->inData[i];\n')]),
    dict(id='d19-recv', checks='C19 C20', edits=[(F, '      recvBuffer.resize(ntot);\n', '      recvBuffer.reserve(ntot);\n')]),
    dict(id='d20-swap', checks='C20', edits=[(F, '        std::vector<size_t> begInds = this->dcmp.getBegIndices(rk);\n', '        std::vector<size_t> begInds = this->dcmp.getBegIndices(this->sz > 2? this->sz - rk - 1: rk);\n')]),
    dict(id='d26-pi', checks='C26', edits=[(L, 'sin(2.0 * M_PI * pos[i])', 'sin(2.0 * 3.1416 * pos[i])')]),
    dict(id='d26-float', checks='C26', edits=[(L, '-2.0 * numDims)', '-2 * numDims)')]),
    dict(id='d04-fold', checks='C04', edits=[(D, '''      else if (indOffset[i] >= this->decomp[i]) {
        indOffset[i] -= this->decomp[i];
''', '''      else if (indOffset[i] > this->decomp[i] - 1 && this->decomp[i] > 1) {
        indOffset[i] = 0;
''')]),
    dict(id='d07-print', checks='C07 C29', edits=[(UM, '''        double outSum = fltr.computeCheckSum("output");
        if (fltr.getRank() == 0) {
''', '''        double outSum = 0;
        if (fltr.getRank() == 0 || i % 10 == 0) {
          outSum = fltr.computeCheckSum("output");
        }
        if (fltr.getRank() == 0) {
''')]),
]
