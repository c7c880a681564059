"""Edits of the Python solvers, writer and program that keep the behaviour"""
P = 'upwind/python/upwind.py'
M = 'upwind/python/upwindMPI.py'
V = 'upwind/python/saveVTK.py'
PU = 'C07 C10 C11 C12 C14 C15 C16 C18 C19'
PM = 'C07 C08 C10 C11 C12 C14 C15 C16 C18 C19 C20'

UPD = '''    # copy 
    oldF = self.f.copy()

    indsUp = self.inds.copy()

    # update the field in each spatial direction
    for j in range(self.ndims):

      # apply offset
      indsUp[j, :] += self.upDirection[j]
      indsUp[j, :] %= self.numCells[j]

      # compute flat indices corresponding to the offset index sets
      flatIndsUp = numpy.dot(self.dimProd, indsUp)

      # update
      self.f -= (deltaTime * self.coeff[j]) * (oldF[flatIndsUp] - oldF)

      # reset
      indsUp[j, :] = self.inds[j, :]
'''
CTOR = '''    for j in range(self.ndims):
      self.upDirection[j] = -1
      if velocity[j] < 0.: self.upDirection[j] = +1
      self.deltas[j] = lengths[j] / numCells[j]
      self.offsetMat[j, j] = self.upDirection[j]
      self.ntot *= numCells[j]
'''
DIM = '''    for i in range(self.ndims - 2, -1, -1):
        # last index varies fastest
        self.dimProd[i] =  self.dimProd[i + 1] * self.numCells[i + 1]
'''
INDS = '''    self.inds = numpy.zeros( (self.ndims, self.ntot), numpy.int32 )
    for j in range(self.ndims):
      self.inds[j, :] = numpy.arange(self.ntot)
      self.inds[j, :] //= self.dimProd[j]
      self.inds[j, :] %= self.numCells[j]
'''
AXES = '''    for i in range(numCells[0] + 1):
      f.write(f' {zAxis[i]}')
'''
DATA = '''    for i in range(len(flatData)):
      f.write(f' {flatData[i]}')
      if (i + 1) % 10 == 0:
          f.write('\\n')'''
LOCAL = '''    self.f[cells[0], :, :] -= deltaTime*self.coeff[0]*self.fOld[ups[0], :, :]
    self.f[:, cells[1], :] -= deltaTime*self.coeff[1]*self.fOld[:, ups[1], :]
    self.f[:, :, cells[2]] -= deltaTime*self.coeff[2]*self.fOld[:, :, ups[2]]
'''

REFACS = [
    dict(id='p-roll', checks=PU, edits=[(P, UPD, '''    shape = tuple(self.numCells)
    old = self.f.reshape(shape).copy()
    new = old.copy()
    for j in range(self.ndims):
      # neighbour in the upwind direction
      up = numpy.roll(old, -self.upDirection[j], axis=j)
      new -= (deltaTime * self.coeff[j]) * (up - old)
    self.f = new.ravel()
''')]),
    dict(id='p-tmpinds', checks=PU, edits=[(P, UPD, '''    oldF = numpy.array(self.f)
    for j in range(self.ndims):
      moved = (self.inds[j, :] + self.upDirection[j]) % self.numCells[j]
      flat = numpy.arange(self.ntot) + (moved - self.inds[j, :]) * self.dimProd[j]
      self.f -= deltaTime * self.coeff[j] * (numpy.take(oldF, flat) - oldF)
''')]),
    dict(id='p-helper', checks=PU, edits=[(P, UPD, '''    oldF = self.f.copy()
    for j, c in enumerate(self.coeff):
      self.f -= (deltaTime * c) * (oldF[self._upFlat(j)] - oldF)

  def _upFlat(self, j):
    """flat indices of the upwind neighbours along dimension j"""
    shifted = self.inds.copy()
    shifted[j] = (shifted[j] + self.upDirection[j]) % self.numCells[j]
    return self.dimProd.dot(shifted)
''')]),
    dict(id='p-vecctor', checks=PU, edits=[(P, CTOR, '''    self.upDirection = numpy.where(numpy.asarray(velocity) < 0., 1, -1)
    self.deltas = numpy.asarray(lengths, numpy.float64) / numpy.asarray(numCells)
    for j in range(self.ndims):
      self.offsetMat[j, j] = self.upDirection[j]
    self.ntot = int(numpy.prod(numCells))
''')]),
    dict(id='p-enumctor', checks=PU, edits=[(P, CTOR, '''    for j, (vel, ln, n) in enumerate(zip(velocity, lengths, numCells)):
      self.upDirection[j] = +1 if vel < 0. else -1
      self.deltas[j] = ln / n
      self.offsetMat[j, j] = self.upDirection[j]
      self.ntot *= n
''')]),
    dict(id='p-dimprod', checks=PU, edits=[(P, DIM, '''    prod = 1
    for i in reversed(range(self.ndims)):
        self.dimProd[i] = prod
        prod *= self.numCells[i]
''')]),
    dict(id='p-inds', checks=PU, edits=[(P, INDS, '''    cells = numpy.arange(self.ntot)
    self.inds = numpy.array([(cells // self.dimProd[j]) % self.numCells[j] for j in range(self.ndims)])
''')]),
    dict(id='p-checksum', checks='C16 C12 C14', edits=[(P, '''    return numpy.sum(self.f)
''', '''    total = self.f.sum()
    return total
''')]),
    dict(id='p-main', checks='C07 C12 C14 C16 C18 C19', edits=[(P, '''  numTimeSteps = 100
  if len(sys.argv) > 2:
    numTimeSteps = int(sys.argv[2])
''', '''  args = sys.argv[1:]
  numTimeSteps = int(args[1]) if len(args) > 1 else 100
'''), (P, '''  dt = float('inf')
  for j in range(ndims):
    dx = lengths[j]/ float(numCells[j])
    dt = min(courant * dx / velocity[j], dt)
''', '''  dt = min(courant * (length / float(n)) / vel for length, n, vel in zip(lengths, numCells, velocity))
'''), (P, '''  for i in range(numTimeSteps):
    up.advect(dt)
''', '''  step = 0
  while step < numTimeSteps:
    up.advect(dt)
    step += 1
''')]),
    dict(id='p-vtkaxes', checks='C15', edits=[(V, AXES, '''    f.write(''.join(f' {z}' for z in zAxis[:numCells[0] + 1]))
''')]),
    dict(id='p-vtkjoin', checks='C15', edits=[(V, '''      for i in range(numCells[1] + 1): 
        f.write(f' {yAxis[i]}') 
''', '''      f.write(' ' + ' '.join([str(y) for y in yAxis]))
'''), (V, AXES, '''    f.writelines(' %r' % z for z in zAxis)
''')]),
    dict(id='p-vtkdata', checks='C15', edits=[(V, DATA, '''    for i, value in enumerate(flatData):
      f.write(f' {value}')
      if i % 10 == 9:
        f.write("\\n")''')]),
    dict(id='p-vtkhelper', checks='C15', edits=[(V, AXES, '''    writeAxis(f, zAxis, numCells[0] + 1)
'''), (V, '''#!/usr/bin/env python
''', '''#!/usr/bin/env python

def writeAxis(f, axis, n):
  """Write n coordinates"""
  for i in range(n):
    f.write(f' {axis[i]}')
''')]),
    dict(id='p-vtkformat', checks='C15', edits=[(V, '''      f.write(f"{numCells[2] + 1} double")
      for i in range(numCells[2] + 1):
        f.write(f' {xAxis[i]}')
''', '''      nx = numCells[2] + 1
      f.write("%d double" % nx)
      for i in range(nx):
        f.write(" {}".format(xAxis[i]))
''')]),
    dict(id='pm-loop', checks=PM, edits=[(M, LOCAL, '''    for j in range(self.ndims):
      dst = [slice(None)] * self.ndims
      src = [slice(None)] * self.ndims
      dst[j] = cells[j]
      src[j] = ups[j]
      self.f[tuple(dst)] -= deltaTime*self.coeff[j]*self.fOld[tuple(src)]
''')]),
    dict(id='pm-ctor', checks=PM, edits=[(M, '''    for j in range(self.ndims):
      self.upDirection[j] = -1
      if velocity[j] < 0.: self.upDirection[j] = +1
      self.deltas[j] = lengths[j] / numCells[j]
      self.ntot *= self.nsLocal[j]
''', '''    for j in range(self.ndims):
      self.upDirection[j] = +1 if velocity[j] < 0. else -1
      self.deltas[j] = lengths[j] / numCells[j]
    self.ntot = numpy.prod(self.nsLocal)
''')]),
    dict(id='pm-neigh', checks=PM, edits=[(M, '''    for i in range(self.ndims):
      direction[i] = self.upDirection[i]
      self.neighbRk[i] = self.dc.getNeighborProc(self.rk, direction, periodic=periodic)
      self.neighbSide[i] = tuple(-direction)
      direction[i] = 0
''', '''    for i in range(self.ndims):
      offset = [0] * self.ndims
      offset[i] = self.upDirection[i]
      self.neighbRk[i] = self.dc.getNeighborProc(self.rk, offset, periodic=periodic)
      self.neighbSide[i] = tuple([-d for d in offset])
''')]),
    dict(id='pm-sum', checks=PM, edits=[(M, '''    return self.f.reduce(operator.add, 0.0, rootPe=0)
''', '''    return self.f.reduce(lambda a, b: a + b, 0.0, rootPe=0)
''')]),
    dict(id='pm-gather', checks=PM, edits=[(M, '''    res = None
    if self.rk == 0:
      res = numpy.zeros(self.numCells, numpy.float64)

    fRoot = MPI.COMM_WORLD.gather(numpy.array(self.f), root=0)

    if self.rk == 0:
      for rk in range(self.sz):
        slab = self.dc.getSlab(rk)
        res[slab] = fRoot[rk]

    return res
''', '''    fRoot = MPI.COMM_WORLD.gather(numpy.array(self.f), root=0)
    if self.rk != 0:
      return None

    res = numpy.zeros(self.numCells, numpy.float64)
    for rk, block in enumerate(fRoot):
      res[self.dc.getSlab(rk)] = block
    return res
''')]),
]
