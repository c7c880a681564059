"""A sixth round: the variants of the solver, the Python programs, the matrix product."""
O5 = 'upwind/cxx/upwindOMP5.cxx'
OT = 'upwind/cxx/upwindOMPTasks.cxx'
A2 = 'upwind/cxx/upwindAcc2.cxx'
U = 'upwind/cxx/upwind.cxx'
UM = 'upwind/cxx/upwindMpi.cxx'
L = 'laplacian/cxx/laplacian.cxx'
PM = 'upwind/python/upwindMPI.py'
PY = 'upwind/python/upwind.py'
SV = 'upwind/python/saveVTK.py'
MM = 'matmult/fortran/matmult.F90'
F8 = 'upwind/fortran/upwindF08.F90'
FG = 'upwind/fortran/upwindF08Gpu.F90'
F = 'cxx/Filter.cpp'
D = 'cxx/CubeDecomp.cpp'
HX = 'upwind/cxx/compute_flat_index_offset_x.h'
HI = 'upwind/cxx/compute_index_set.h'
SVH = 'upwind/cxx/saveVTK.h'

REFACS = [
    dict(id='f10-o5-alloc', checks='C21', edits=[(O5, '''            #pragma omp target teams distribute parallel for
            for (int i = 0; i < ntot; ++i) {
                fOldPtr[i] = fPtr[i];
            }
''', '''            if (istep > 0) {
            #pragma omp target teams distribute parallel for
            for (int i = 0; i < ntot; ++i) {
                fOldPtr[i] = fPtr[i];
            }
            }
''')]),
    dict(id='f21-o5-from', checks='C21', edits=[(O5, 'map(tofrom: fPtr[0:ntot])', 'map(from: fPtr[0:ntot])')]),
    dict(id='f09-a2-private', checks='C09', edits=[(A2, '#pragma acc parallel loop private(inds)', '#pragma acc parallel loop')]),
    dict(id='f09-a2-upi', checks='C09', edits=[(A2, '''            // private
            int upI;
''', ''), (A2, '    int inds[NDIMS];\n\n    #pragma', '    int inds[NDIMS];\n    int upI;\n\n    #pragma')]),
    dict(id='f10-hx', checks='C10', edits=[(HX, '% numCellsPtr[0]);', '% numCellsPtr[1]);')]),
    dict(id='f10-hi', checks='C10', edits=[(HI, 'inds[1] = i / dimProdPtr[1] % numCellsPtr[1];', 'inds[1] = (i - inds[0]*dimProdPtr[0]) / dimProdPtr[1];')], expect=0),
    dict(id='f10-hi2', checks='C10', edits=[(HI, 'inds[2] = i / dimProdPtr[2] % numCellsPtr[2];', 'inds[2] = i % dimProdPtr[1] % 1024;')]),
    dict(id='f10-ot-while', checks='C10', edits=[(OT, '          inds[j] += this->upDirection[j] + this->numCells[j];\n          inds[j] %= this->numCells[j];', '          inds[j] += this->upDirection[j];\n          if (inds[j] < 0) inds[j] += this->numCells[j];\n          if (inds[j] > (int) this->numCells[j]) inds[j] = 0;')]),
    dict(id='f09-ot-nowait', checks='C09', edits=[(OT, '''      #pragma omp for
      for (int i = 0; i < (int) this->ntot; ++i) {

        std::array''', '''      #pragma omp for nowait
      for (int i = 0; i < (int) this->ntot; ++i) {

        std::array''')]),
    dict(id='f11-stride', checks='C11', edits=[(A2, 'this->dimProd[i] =  this->dimProd[i + 1] * this->numCells[i + 1];', 'this->dimProd[i] =  this->dimProd[i + 1] * this->numCells[i];')]),
    dict(id='f12-u-one', checks='C12', edits=[(U, '    up.advect(numTimeSteps, dt);\n', '    for (int i = 1; i < numTimeSteps; i *= 2) {\n      up.advect(1, dt);\n    }\n')]),
    dict(id='f12-split', checks='C12', edits=[(U, '    up.advect(numTimeSteps, dt);\n', '    up.advect(numTimeSteps / 2, dt);\n    up.advect(numTimeSteps / 2, dt);\n')]),
    dict(id='f12-laplace', checks='C26', edits=[(L, 'size_t numIter = 10;', 'size_t numIter = numCells > 512? 1: 10;')], expect=0),
    dict(id='f16-time', checks='C16', edits=[(L, 'MPI_Reduce(&walltime, &maxTime, 1, MPI_DOUBLE, MPI_MAX,', 'MPI_Reduce(&walltime, &maxTime, 1, MPI_DOUBLE, MPI_SUM,')]),
    dict(id='f07-vtk', checks='C07', edits=[(L, '''        if (fltr.getRank() == 0) {
          std::cout << "Data will be written to file laplacian.vtk\\n";
        }
        fltr.saveVTK("laplacian.vtk");''', '''        if (fltr.getRank() == 0 || fltr.getRank() + 1 < fltr.getNumProcs()) {
          fltr.saveVTK("laplacian.vtk");
        }''')]),
    dict(id='f10-pm-self', checks='C10', edits=[(PM, "      self.neighbRk[i] = self.dc.getNeighborProc(self.rk, direction, periodic=periodic)", "      self.neighbRk[i] = self.dc.getNeighborProc(self.rk, direction, periodic=periodic) if self.sz > 2 else 1 - self.rk")]),
    dict(id='f10-pm-order', checks='C10', edits=[(PM, '''    self.fOld[:] = self.f
    c =''', '''    self.f[:] = self.fOld
    c =''')]),
    dict(id='f10-pm-coeff', checks='C10', edits=[(PM, 'self.fOld.getData(self.neighbRk[1], self.neighbSide[1])', 'self.fOld.getData(self.neighbRk[1], self.neighbSide[1 if self.upDirection[1] < 0 else 0])')], expect=None),
    dict(id='f07-pm-sum', checks='C07', edits=[(PM, '''  chksum = up.checksum()
  if up.rk == 0: 
''', '''  if up.rk == 0: 
    chksum = up.checksum()
''')]),
    dict(id='f20-pm-slab', checks='C20', edits=[(PM, "        slab = self.dc.getSlab(rk)\n        res[slab] = fRoot[rk]", "        slab = self.dc.getSlab(rk)\n        res[slab] = fRoot[rk] if rk < 8 else fRoot[rk - 8]")]),
    dict(id='f29-pm-tic', checks='C29', edits=[(PM, '''  if up.rk == 0:
    print("number of cells: {0}".format(numCells))
''', '''  print("number of cells: {0}".format(numCells))
''')]),
    dict(id='f12-pm-steps', checks='C12', edits=[(PM, 'for i in range(numTimeSteps):', 'for i in range(1, numTimeSteps):')]),
    dict(id='f12-pm-dt', checks='C12', edits=[(PM, '    dt = min(courant * dx / velocity[j], dt)', '    dt = min(courant * dx, dt)')], expect=None),
    dict(id='f14-pm-vtk', checks='C14', edits=[(PM, "sys.argv[3] == 'vtk'", "sys.argv[2] == 'vtk'")]),
    dict(id='f15-sv', checks='C15', edits=[(SV, None, None)]) if False else
    dict(id='f17-init', checks='C17', edits=[(MM, '                c(i, k) = 0\n                do j = 1, m\n                    c(i, k) = c(i, k) + a(i, j)*b(j, k)\n                enddo\n            enddo\n        enddo\n    end subroutine matmult0', '                do j = 1, m\n                    if (j == 1) c(i, k) = 0\n                    c(i, k) = c(i, k) + a(i, j)*b(j, k)\n                enddo\n            enddo\n        enddo\n    end subroutine matmult0')]),
    dict(id='f17-conc', checks='C17', edits=[(MM, 'do concurrent (k = 1:el)', 'do concurrent (k = 1:min(el, 256))')]),
    dict(id='f17-abs', checks='C17', edits=[(MM, 'diff = sum(abs(c0 - c1))', 'diff = abs(sum(c0 - c1))')]),
    dict(id='f17-dims', checks='C17', edits=[(MM, '        el = size(c, 2)\n        do concurrent', '        el = size(c, 1)\n        do concurrent')]),
    dict(id='f10-f8', checks='C10', edits=[(F8, 'modulo(inds(j) + this % numCells(j) - 1, this % numCells(j)) + 1', 'mod(inds(j) - 1, this % numCells(j)) + 1')]),
    dict(id='f15-f8', checks='C15', edits=[(F8, "write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot", "write(iunit, '(a, i5)') 'CELL_DATA ', this % ntot")]),
    dict(id='f28-f8', checks='C28', edits=[(F8, "write(*, '(a, i10, a, e20.13)') 'i = ', i,", "write(*, '(a, i4, a, e20.13)') 'i = ', i,")]),
    dict(id='f28-f8e', checks='C28', edits=[(F8, "'(a, i10, a, e20.13)'", "'(a, i10, a, f20.13)'")], expect=None),
    dict(id='f19-save', checks='C19', edits=[(F, '    int nLocal = (int) this->outData.size();\n', '    int nLocal = (int) (ntot / (this->sz > 1? this->sz - 1: 1));\n')]),
    dict(id='f05-same', checks='C05 C06', edits=[(F, '      if (it2 != this->windows.end()) {\n        dstData', '      if (it2 != this->windows.end() && (neighborRk != this->rk || this->sz == 1)) {\n        dstData')], expect=0),
    dict(id='f05-pos', checks='C05', edits=[(F, 'pos[i] = this->xmins[i] + (globalInds[i] + 0.5) * delta;', 'pos[i] = this->xmins[i] + (globalInds[i] - this->lo[i] + 0.5) * delta;')]),
    dict(id='f04-dir2', checks='C04', edits=[(D, '      indOffset[i] = inds[i] + dir[i];\n', '      indOffset[i] = inds[i] + (dir[i] > 0) - (dir[i] < 0 && inds[i] > 0);\n')]),
    dict(id='f02-end', checks='C02', edits=[(D, '      res[i] = (inds[i] + 1) * localDims[i];\n', '      res[i] = inds[i] * localDims[i] + this->dims[i] / (this->decomp[i] > 64? 64: this->decomp[i]);\n')]),
    dict(id='f03-limit', checks='C03', edits=[(D, '    for (size_t k = 2; k <= n2; ++k) {\n', '    for (size_t k = 2; k <= n2 && res.size() < 16; ++k) {\n')], expect=None),
]
