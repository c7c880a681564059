"""Deliberate breakages; every named check has to report a violation"""
F = 'cxx/Filter.cpp'
FH = 'cxx/Filter.h'
D = 'cxx/CubeDecomp.cpp'
I = 'cxx/MultiArrayIter.cpp'
IH = 'cxx/MultiArrayIter.h'
A = 'cxx/CmdLineArgParser.h'
W = 'cxx/writeVTK.cpp'
L = 'laplacian/cxx/laplacian.cxx'
MPI = 'upwind/cxx/upwindMpi.cxx'
U = 'upwind/cxx/upwind.cxx'
T = 'upwind/cxx/upwindOMPTasks.cxx'
O5 = 'upwind/cxx/upwindOMP5.cxx'
AC = 'upwind/cxx/upwindAcc.cxx'
A2 = 'upwind/cxx/upwindAcc2.cxx'
SV = 'upwind/cxx/saveVTK.h'

REFACS = [
    dict(id='b01-dims-signed', checks='C01', edits=[(IH, 'res[i] = this->lo[i] + this->bigIndex / this->dimProd[i] % this->dims[i];', 'res[i] = this->lo[i] + this->bigIndex / this->dimProd[i] % this->hi[i];')]),
    dict(id='b01-move', checks='C01', edits=[(I, 'this->bigIndex = bi;', 'this->bigIndex = (bi < this->ntot? bi: this->ntot - 1) + 0 * bi;\n\tif (bi + 1 == this->ntot) this->bigIndex = bi - (this->ndims > 3);')]),
    dict(id='b01-zero', checks='C01', edits=[(IH, 'MultiArrayIter() : rowMajor(true), ntot(0), ndims(0), bigIndex(0) {}', 'MultiArrayIter() : rowMajor(true), ntot(0), bigIndex(0) {}')]),
    dict(id='b02-divisor', checks='C02', edits=[(D, 'if ((n / k)*k == n) {', 'if (n % k <= (k > 64? 1u: 0u)) {')]),
    dict(id='b02-end', checks='C02', edits=[(D, '      res[i] = (inds[i] + 1) * localDims[i];', '      res[i] = (inds[i] + 1 == this->decomp[i]? this->dims[i]: (inds[i] + 1) * localDims[0]);')]),
    dict(id='b02-empty', checks='C02', edits=[(D, '      // return empty vector\n      return std::vector<size_t>();', '      return std::vector<size_t>(this->ndims, 1);')]),
    dict(id='b03-tie', checks='C03', edits=[(D, 'if (cost < minCost) {', 'if (cost <= minCost) {')]),
    dict(id='b03-float', checks='C03', edits=[(D, 'return (double) surface / (double) volume;', 'return (double) (surface / volume);')]),
    dict(id='b03-skip', checks='C03', edits=[(D, 'for (size_t i = 0; i < it.getNumberOfTerms(); ++i) {', 'for (size_t i = 0; i + 1 < it.getNumberOfTerms(); ++i) {')]),
    dict(id='b04-mod', checks='C04', edits=[(D, 'indOffset[i] -= this->decomp[i];', 'indOffset[i] = (this->decomp[i] > 2? 0: dir[i]) ;')]),
    dict(id='b04-axis', checks='C04', edits=[(D, 'indOffset[i] += this->decomp[i];', 'indOffset[i] += this->decomp[this->ndims > 2 && i == 1? 0: i];')]),
    dict(id='b05-ghost', checks='C05', edits=[(F, 'if (numGhosts > sideGhosts) {', 'if (numGhosts > sideGhosts && offset[0] != 0) {')]),
    dict(id='b05-wraplow', checks='C05', edits=[(F, 'indOffset[j] = ((indOffset[j] % numCells) + numCells) % numCells;', 'if (indOffset[j] < 0) indOffset[j] += numCells;\n          if (indOffset[j] > numCells) indOffset[j] -= numCells;')]),
    dict(id='b05-pos', checks='C05', edits=[(F, 'pos[i] = this->xmins[i] + (globalInds[i] + 0.5) * delta;', 'pos[i] = this->xmins[0] + (globalInds[i] + 0.5) * delta;')]),
    dict(id='b05-copy', checks='C05', edits=[(F, '''    for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
      this->inData[i] = this->outData[i];
    }
''', '''    this->inData.swap(this->outData);
''')]),
    dict(id='b05-both', checks='C05', edits=[(F, '        else if (dstData) {', '        if (dstData && (!insideLocalDomain || this->hi[0] - this->lo[0] == 1)) {')]),
    dict(id='b06-closing', checks='C06', edits=[(F, '''  MPI_Win_fence(MPI_MODE_NOSUCCEED, win);

  return dstData;''', '''  if (otherRank != this->rk) MPI_Win_fence(MPI_MODE_NOSUCCEED, win);

  return dstData;''')]),
    dict(id='b06-count', checks='C06', edits=[(F, 'otherRank, 0, n, MPI_DOUBLE, win);', 'otherRank, 0, (n > 1? n - 1: n), MPI_DOUBLE, win);')]),
    dict(id='b06-src', checks='C06', edits=[(F, '''MPI_Win_create(srcData, n*sizeof(double), sizeof(double), ''', '''MPI_Win_create(dstData, n*sizeof(double), sizeof(double), ''')]),
    dict(id='b06-early', checks='C06', edits=[(F, 'srcData[i] = this->outData[bi];', 'srcData[i] = (this->sz > 4? this->winData.find(side)->second.second[i]: this->outData[bi]);')]),
    dict(id='b07-skip', checks='C07', edits=[(F, '''    MPI_Reduce(&localSum, &globalSum''', '''    if (localSum == 0 && inOrOut == "input") return globalSum;
    MPI_Reduce(&localSum, &globalSum''')]),
    dict(id='b07-root', checks='C07', edits=[(MPI, 'MPI_Reduce(&walltime, &maxTime, 1, MPI_DOUBLE, MPI_MAX, 0, MPI_COMM_WORLD);', 'MPI_Reduce(&walltime, &maxTime, 1, MPI_DOUBLE, MPI_MAX, fltr.getRank() > 7? 7: 0, MPI_COMM_WORLD);')]),
    dict(id='b07-self', checks='C07', edits=[(F, '''      if (it2 != this->windows.end()) {
        dstData''', '''      if (it2 != this->windows.end() && neighborRk != this->rk + 1) {
        dstData''')]),
    dict(id='b08-order', checks='C08', edits=[(F, '''     for (std::map< std::vector<int>, MPI_Win >::const_iterator it = this->windows.begin();
       it != this->windows.end(); ++it) {
       this->deleteWindow(it->first);
     }
''', '''     if (!this->windows.empty()) {
     for (std::map< std::vector<int>, MPI_Win >::const_iterator it = this->windows.begin();
       it != --this->windows.end(); ++it) {
       this->deleteWindow(it->first);
     }
     }
''')]),
    dict(id='b08-final', checks='C08', edits=[(L, '''      std::cerr << "Decomposition is invalid\\n";
''', '''      std::cerr << "Decomposition is invalid\\n";
      return 1;
''')]),
    dict(id='b08-freefirst', checks='C08', edits=[(F, '''      MPI_Free_mem(dataIt->second.first);
      MPI_Free_mem(dataIt->second.second);
''', '''      MPI_Free_mem(dataIt->second.first);
      MPI_Free_mem(dataIt->second.first);
''')]),
    dict(id='b09-nowait', checks='C09', edits=[(U, '''      #pragma omp for
      for (int i = 0; i < (int) this->ntot; ++i) {
        oldFPtr[i]''', '''      #pragma omp for nowait
      for (int i = 0; i < (int) this->ntot; ++i) {
        oldFPtr[i]''')]),
    dict(id='b09-static', checks='C09', edits=[(T, 'int oldIndex = inds[j];', 'static int oldIndex; oldIndex = inds[j];')]),
    dict(id='b10-last', checks='C10', edits=[(U, 'inds[j] = oldIndex;', 'if (j + 1 < NDIMS || NDIMS < 2) inds[j] = oldIndex; else inds[0] = oldIndex;')], expect=0),
    dict(id='b10-oldidx', checks='C10', edits=[(U, '''          inds[j] = oldIndex;
''', '''          if (oldIndex > 0) inds[j] = oldIndex;
''')]),
    dict(id='b10-hdr', checks='C10', edits=[('upwind/cxx/compute_flat_index_offset_y.h', 'upI += dimProdPtr[2] * inds[2];', 'upI += inds[2] * dimProdPtr[1] / numCellsPtr[1];')]),
    dict(id='b10-mpidiag', checks='C10', edits=[(MPI, 'val -= signs[i] * dt * velocities[i] / deltas[i];', 'val -= dt * velocities[i] / deltas[0];')], expect=None),
    dict(id='b11-ntot', checks='C11', edits=[(T, 'this->dimProd[i] =  this->dimProd[i + 1] * this->numCells[i + 1];', 'this->dimProd[i] =  this->dimProd[i + 1] * this->numCells[NDIMS - 1];')]),
    dict(id='b11-zero', checks='C11', edits=[(AC, 'if (velocity[j] < 0.) this->upDirection[j] = +1;', 'if (velocity[j] < -1.e-3) this->upDirection[j] = +1;')]),
    dict(id='b12-dt', checks='C12', edits=[(AC, 'dt = (val < dt? val: dt);', 'dt = (j > 0 && val < dt? dt: val);')], expect=None),
    dict(id='b12-axes', checks='C12', edits=[(O5, 'std::vector<int> numCells(ndims, numCellsXYZ);', 'std::vector<int> numCells(ndims, numCellsXYZ + numCellsXYZ % 2);')]),
    dict(id='b12-steps', checks='C12', edits=[(A2, 'int numTimeSteps = args.get<int>("-numSteps");', 'int numTimeSteps = args.get<int>("-numSteps");\n  if (numTimeSteps > 1000) numTimeSteps = 1000;')]),
    dict(id='b13-last', checks='C13', edits=[(A, '''          i->second = atof(arg.c_str());
          isArgVal = false;
''', '''          i->second = atof(arg.c_str());
          isArgVal = false;
          break;
''')]),
    dict(id='b13-two', checks='C13', edits=[(A, '&& (arg.size() >= 2) && !isdigit(arg[1]);', '&& (arg.size() > 2) && !isdigit(arg[1]);')]),
    dict(id='b13-flag', checks='C13', edits=[(A, 'i->second = !i->second;', 'i->second = true;')]),
    dict(id='b13-int', checks='C13', edits=[(A, 'i->second = atoi(arg.c_str());', 'i->second = (int) (float) atof(arg.c_str());')]),
    dict(id='b13-foot', checks='C13', edits=[(A, 'this->footer = note + "\\n" + this->footer;', 'if (this->footer.find(note) == std::string::npos) this->footer = note + "\\n" + this->footer;')]),
    dict(id='b14-help', checks='C14', edits=[(O5, '''  } else if (help) {
    args.help();
    return 0;
  }''', '''  } else if (help) {
    args.help();
  }''')]),
    dict(id='b14-name', checks='C14', edits=[(T, 'bool doStd = args.get<bool>("-std");', 'bool doStd = args.get<bool>("-vtk");')]),
    dict(id='b15-dims', checks='C15', edits=[(W, 'nodeDims[1] = ny1;', 'nodeDims[1] = nx1;')]),
    dict(id='b15-order', checks='C15', edits=[(W, 'MultiArrayIter pit(zeros, nodeDims, false);', 'MultiArrayIter pit(zeros, nodeDims, nodeDims[2] == 2);')]),
    dict(id='b15-cells', checks='C15', edits=[(SV, 'if ((i + 1) % 10 == 0) file << \'\\n\';', 'if ((i + 1) % 10000 == 0) break;')]),
    dict(id='b15-sep', checks='C15', edits=[(SV, 'file << this->f[i] << " ";', 'file << this->f[i];\n      if (this->f[i] != 1.0) file << " ";')]),
    dict(id='b16-mean', checks='C16', edits=[(O5, 'for (auto i = 0; i < this->f.size(); ++i) {', 'for (auto i = 1; i < this->f.size(); ++i) {')]),
    dict(id='b16-int', checks='C16', edits=[(U, 'return std::accumulate(this->f.begin(), this->f.end(), 0.0, std::plus<double>());', 'return std::accumulate(this->f.begin(), this->f.end(), 0.0f, std::plus<double>());')]),
    dict(id='b16-min', checks='C16', edits=[(L, 'MPI_Reduce(&walltime, &minTime, 1, MPI_DOUBLE, MPI_MIN,', 'MPI_Reduce(&walltime, &minTime, 1, MPI_DOUBLE, MPI_MAX,')]),
    dict(id='b16-in', checks='C16', edits=[(F, 'if (inOrOut == "input") {', 'if (inOrOut != "output" || this->sz == 1) {')]),
    dict(id='b18-mode', checks='C18', edits=[(IH, 'MultiArrayIter() : rowMajor(true), ntot(0), ndims(0), bigIndex(0) {}', 'MultiArrayIter() : rowMajor(true), ndims(0), bigIndex(0) {}')]),
    dict(id='b18-std', checks='C18', edits=[(T, '    double res = 0;\n    for (auto', '    double res;\n    for (auto')]),
    dict(id='b19-size', checks='C19', edits=[(F, 'MPI_Alloc_mem(sizeof(double)*n, MPI_INFO_NULL, &dstData);', 'MPI_Alloc_mem(sizeof(float)*n, MPI_INFO_NULL, &dstData);')]),
    dict(id='b19-mod', checks='C19', edits=[(T, 'inds[j] += this->upDirection[j] + this->numCells[j];\n          inds[j] %= this->numCells[j];', 'inds[j] += this->upDirection[j];\n          if (inds[j] < 0) inds[j] = this->numCells[j] - 1;\n          if (inds[j] > (int) this->numCells[j]) inds[j] = 0;')]),
    dict(id='b20-beg', checks='C20', edits=[(F, 'recvBuffer[rk*nLocal + iLocal];', 'recvBuffer[rk*nLocal + (nLocal - 1 - iLocal)];')]),
    dict(id='b20-own', checks='C20', edits=[(F, 'globalInds[i] = begInds[i] + localInds[i];', 'globalInds[i] = begInds[i] + localInds[i] - this->lo[i] * (rk > 1);')], expect=None),
    dict(id='b21-range', checks='C21', edits=[(AC, 'copy(fPtr[0:ntot]) \\', 'copy(fPtr[0:ntot-1]) \\')]),
    dict(id='b21-alloc', checks='C21', edits=[(O5, 'map(alloc:fOldPtr[0:ntot]) map(tofrom: fPtr[0:ntot])', 'map(alloc:fOldPtr[0:ntot]) map(to: fPtr[0:ntot])')]),
    dict(id='b26-centre', checks='C26', edits=[(L, '-2.0 * numDims)', '-2.0 * (numDims < 3? numDims: 2))')]),
    dict(id='b26-func', checks='C26', edits=[(L, 'for (size_t i = 0; i < pos.size(); ++i) {', 'for (size_t i = 0; i < pos.size() && i < 2; ++i) {')]),
    dict(id='b26-reset', checks='C26', edits=[(L, '''      offset[i] = 0;
    }

    // set the global''', '''      offset[i] = (i + 1 < 3? 0: 1);
    }

    // set the global''')], expect=None),
]
