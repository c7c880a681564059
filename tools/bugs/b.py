"""Deliberate breakages of the Fortran and Python programs"""
FO = 'upwind/fortran/upwind.F90'
F3 = 'upwind/fortran/upwindF03.F90'
F8 = 'upwind/fortran/upwindF08.F90'
MM = 'matmult/fortran/matmult.F90'
P = 'upwind/python/upwind.py'
M = 'upwind/python/upwindMPI.py'
V = 'upwind/python/saveVTK.py'

REFACS = [
    dict(id='bf09-private', checks='C09', edits=[(FO, '!$OMP PARALLEL DO PRIVATE(i, j, inds, oldIndex, upI)', '!$OMP PARALLEL DO PRIVATE(i, j, inds, upI)')]),
    dict(id='bf09-inds', checks='C09', edits=[(FO, '!$OMP PARALLEL DO PRIVATE(i, j, inds, oldIndex, upI)', '!$OMP PARALLEL DO PRIVATE(i, j, oldIndex, upI)')]),
    dict(id='bf09-thread', checks='C09', edits=[(FO, '!$OMP PARALLEL PRIVATE(numThreads, maxNumThreads, threadId)', '!$OMP PARALLEL PRIVATE(maxNumThreads, threadId)')]),
    dict(id='bf10-mod', checks='C10', edits=[(FO, 'inds(j) = modulo(inds(j) + obj % numCells(j) - 1, obj % numCells(j)) + 1', 'inds(j) = mod(inds(j) - 1, obj % numCells(j)) + 1')]),
    dict(id='bf10-old', checks='C10', edits=[(F3, '(oldF(upI) - oldF(i))', '(oldF(upI) - this % f(i))')]),
    dict(id='bf10-single', checks='C10', edits=[(FO, 'oldF = obj % f\n', 'oldF = real(real(obj % f, 4), r8)\n')]),
    dict(id='bf11-le', checks='C11', edits=[(FO, 'if (velocity(j) < 0.) then', 'if (velocity(j) < 1.) then')]),
    dict(id='bf11-first', checks='C11', edits=[(FO, '''        obj % dimProd(obj % ndims) = 1
        do j = obj % ndims - 1, 1, -1
            obj % dimProd(j) =  obj % dimProd(j + 1) * obj % numCells(j + 1)
        enddo
''', '''        obj % dimProd(1) = 1
        do j = 2, obj % ndims
            obj % dimProd(j) =  obj % dimProd(j - 1) * obj % numCells(j - 1)
        enddo
''')]),
    dict(id='bf12-kind', checks='C12', edits=[(FO, 'courant = 0.1_r8', 'courant = 0.1')]),
    dict(id='bf12-real', checks='C12', edits=[(FO, 'dx = lengths(j) / real(numCells(j), r8)', 'dx = lengths(j) / real(numCells(1) / j * j, r8)')], expect=0),
    dict(id='bf12-steps', checks='C12', edits=[(FO, 'do i = 1, numTimeSteps\n', 'do i = 1, numTimeSteps, max(1, numTimeSteps/1000)\n')]),
    dict(id='bf14-order', checks='C14', edits=[(FO, "else if (argc == 3 .and. argv == 'vtk') then", "else if (argc >= 2 .and. argv == 'vtk') then")], expect=None),
    dict(id='bf14-int', checks='C14', edits=[(FO, "if ((argc == 1 .or. argc == 2) .and. ier /= 0) then", "if (argc == 1 .and. ier /= 0) then")]),
    dict(id='bf14-miss', checks='C14', edits=[(FO, 'if (argc < 2) then', 'if (argc < 1) then')]),
    dict(id='bf15-y', checks='C15', edits=[(FO, '0.0 + obj % deltas(2) * (i - 1)', '0.0 + obj % deltas(3) * (i - 1)')]),
    dict(id='bf15-dim', checks='C15', edits=[(F3, "'(a, i10, i10)') 'DIMENSIONS 1', &", "'(a, i10, i9)') 'DIMENSIONS 1', &")], expect=None),
    dict(id='bf15-width', checks='C15', edits=[(FO, "write(iunit, '(e20.7)') obj % f(i)", "write(iunit, '(f6.3)') obj % f(i)")]),
    dict(id='bf16-sum', checks='C16', edits=[(FO, 'sum(up % f)', 'sum(up % f(2:)) + up % f(up % ntot)')]),
    dict(id='bf17-trans', checks='C17', edits=[(MM, 'c(i, k) = c(i, k) + a(i, j)*b(j, k)', 'c(i, k) = c(i, k) + a(i, j)*b(j, min(k, n))')]),
    dict(id='bf18-stat', checks='C18', edits=[(FO, '''    read(str,*,iostat=stat) i
''', '''    if (len_trim(str) > 0) read(str,*,iostat=stat) i
''')], expect=None),
    dict(id='bf18-cells', checks='C18', edits=[(FO, '    numCells = -1\n', '')], expect=None),
    dict(id='bf18-vtk', checks='C18', edits=[(FO, '    doVtk = .FALSE.\n', '')]),
    dict(id='bf18-f', checks='C18', edits=[(FO, '''        obj % f = 0
        obj % f(1) = 1
''', '''        obj % f(2:obj % ntot - 1) = 0
        obj % f(1) = 1
''')]),
    dict(id='bf19-alloc', checks='C19', edits=[(FO, 'allocate(oldF(obj % ntot))\n        oldF = obj % f\n', 'allocate(oldF(obj % ntot - 1))\n        oldF(:) = obj % f(1:obj % ntot - 1)\n')]),
    dict(id='bf19-del', checks='C19', edits=[(FO, '        deallocate(obj % deltas)\n', '')]),
    dict(id='bp10-neg', checks='C10', edits=[(P, 'indsUp[j, :] %= self.numCells[j]', 'indsUp[j, indsUp[j, :] >= self.numCells[j]] = 0')]),
    dict(id='bp10-copy', checks='C10', edits=[(P, 'oldF = self.f.copy()', 'oldF = self.f')]),
    dict(id='bp10-reset', checks='C10', edits=[(P, 'indsUp = self.inds.copy()', 'indsUp = self.inds')]),
    dict(id='bp11-dt', checks='C11', edits=[(P, 'self.upDirection[j] = -1\n      if velocity[j] < 0.: self.upDirection[j] = +1', 'self.upDirection[j] = -1 if velocity[0] >= 0. else +1')]),
    dict(id='bp12-dt', checks='C12', edits=[(P, 'dt = min(courant * dx / velocity[j], dt)', 'dt = max(courant * dx / velocity[j], dt) if j > 1 else min(courant * dx / velocity[j], dt)')], expect=0),
    dict(id='bp14-vtk', checks='C14', edits=[(P, "if len(sys.argv) > 3 and sys.argv[3] == 'vtk':", "if len(sys.argv) > 3 or sys.argv[-1] == 'vtk':")]),
    dict(id='bp15-x', checks='C15', edits=[(V, "for i in range(numCells[1] + 1): \n        f.write(f' {yAxis[i]}')", "for i in range(numCells[1] + 1): \n        f.write(f' {xAxis[i]}')")]),
    dict(id='bp15-flat', checks='C15', edits=[(P, 'self.f.reshape(self.numCells))', 'self.f.reshape(self.numCells).T)')]),
    dict(id='bp16-sum', checks='C16', edits=[(M, 'return self.f.reduce(operator.add, 0.0, rootPe=0)', 'return self.f.reduce(max, 0.0, rootPe=0)')]),
    dict(id='bpm10-edge', checks='C10', edits=[(M, 'edge = [slice(None, 1) if u < 0 else slice(-1, None) for u in self.upDirection]', 'edge = [slice(None, 1) if u < 0 else slice(1, None) for u in self.upDirection]')]),
    dict(id='bpm10-side', checks='C10', edits=[(M, 'self.neighbSide[i] = tuple(-direction)', 'self.neighbSide[i] = tuple(direction)')]),
    dict(id='bpm07-root', checks='C07', edits=[(M, '''    fRoot = MPI.COMM_WORLD.gather(numpy.array(self.f), root=0)

    if self.rk == 0:
''', '''    if self.rk == 0 or self.f is not None and self.rk < self.sz - 1:
      fRoot = MPI.COMM_WORLD.gather(numpy.array(self.f), root=0)

    if self.rk == 0:
''')]),
    dict(id='bpm20-slab', checks='C20', edits=[(M, 'slab = self.dc.getSlab(rk)', 'slab = self.dc.getSlab(self.rk)')]),
    dict(id='bpm08-free', checks='C08', edits=[(M, '    self.f.free()\n    self.fOld.free()\n', '    self.f.free()\n')]),
]
