"""A fifth round: state that outlives an object (static variables, saved variables, module variables, default arguments)."""
F = 'cxx/Filter.cpp'
D = 'cxx/CubeDecomp.cpp'
M = 'cxx/MultiArrayIter.cpp'
W = 'cxx/writeVTK.cpp'
U = 'upwind/cxx/upwind.cxx'
UA = 'upwind/cxx/upwindAcc.cxx'
PY = 'upwind/python/upwind.py'
F90 = 'upwind/fortran/upwind.F90'
F03 = 'upwind/fortran/upwindF03.F90'
F08 = 'upwind/fortran/upwindF08.F90'

REFACS = [
    dict(id='e10-static', checks='C10', edits=[(U, '''      #pragma omp for
      for (int i = 0; i < (int) this->ntot; ++i) {
        oldFPtr''', '''      static const int numAll = (int) this->ntot;
      #pragma omp for
      for (int i = 0; i < numAll; ++i) {
        oldFPtr''')]),
    dict(id='e10-static-up', checks='C10', edits=[(U, '''    double* __restrict__ oldFPtr''', '''    static std::vector<double> cs;
    if (cs.empty()) {
      for (size_t j = 0; j < NDIMS; ++j) {
        cs.push_back(this->v[j] * this->upDirection[j] / this->deltas[j]);
      }
    }
    double* __restrict__ oldFPtr'''), (U, 'deltaTime * this->v[j] * this->upDirection[j] / this->deltas[j];', 'deltaTime * cs[j];')]),
    dict(id='e10-save', checks='C10', edits=[(F90, '''        integer :: inds(obj % ndims)
        
        ! allocate and copy the field
''', '''        integer :: inds(obj % ndims)
        integer, save :: numAll = 0
        
        if (numAll == 0) numAll = obj % ntot
        ! allocate and copy the field
'''), (F90, '''        !$acc parallel loop private(inds, j, oldIndex, upI)
        do i = 1, obj % ntot
''', '''        !$acc parallel loop private(inds, j, oldIndex, upI)
        do i = 1, numAll
''')]),
    dict(id='e10-save-coeff', checks='C10', edits=[(F90, '''        integer :: inds(obj % ndims)
        
        ! allocate and copy the field
''', '''        integer :: inds(obj % ndims)
        logical, save :: first = .true.
        real(r8), save :: coeff(3)
        
        if (first) then
            do j = 1, obj % ndims
                coeff(j) = obj % v(j)*obj % upDirection(j)/obj % deltas(j)
            enddo
            first = .false.
        endif
        ! allocate and copy the field
'''), (F90, 'deltaTime*obj % v(j)*obj % upDirection(j)*(oldF(upI) - oldF(i))/obj % deltas(j)', 'deltaTime*coeff(j)*(oldF(upI) - oldF(i))')]),
    dict(id='e10-py-cache', checks='C10', edits=[(PY, '''  def advect(self, deltaTime):

    # copy 
''', '''  index = {}

  def advect(self, deltaTime):

    # copy 
'''), (PY, '''      flatIndsUp = numpy.dot(self.dimProd, indsUp)
''', '''      key = (j, self.ntot)
      if key not in self.index:
        self.index[key] = numpy.dot(self.dimProd, indsUp)
      flatIndsUp = self.index[key]
''')]),
    dict(id='e10-py-default', checks='C10', edits=[(PY, '''  def advect(self, deltaTime):

    # copy 
''', '''  def advect(self, deltaTime, work=[]):

    if not work:
      work.append(self.coeff)
    # copy 
'''), (PY, '(deltaTime * self.coeff[j])', '(deltaTime * work[0][j])')]),
    dict(id='e01-static', checks='C01', edits=[(M, '''	this->dimProd.resize(this->ndims);
	if (this->ndims == 0) {''', '''	static const bool rowMajorFirst = rowMajor;
	rowMajor = rowMajorFirst;
	this->dimProd.resize(this->ndims);
	if (this->ndims == 0) {''')]),
    dict(id='e02-static', checks='C02 C03', edits=[(D, '''    std::vector< std::vector<size_t> > validDecomps;
''', '''    static std::vector< std::vector<size_t> > validDecomps;
''')]),
    dict(id='e02-static-primes', checks='C02 C03', edits=[(D, '''    std::vector<size_t> res(1, 1);
    size_t n2''', '''    static std::vector<size_t> res(1, 1);
    res.resize(1);
    if (n > 1000) {
      return res;
    }
    size_t n2''')]),
    dict(id='e02-static-cost', checks='C02 C03', edits=[(D, '''    double minCost = std::numeric_limits<double>::max();
''', '''    static double minCost = std::numeric_limits<double>::max();
''')]),
    dict(id='e05-num', checks='C05', edits=[(F, '''Filter::copyOutToIn() {

    for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {''', '''Filter::copyOutToIn() {

    static const size_t numCells = this->mit.getNumberOfTerms();
    for (size_t i = 0; i < numCells; ++i) {''')]),
    dict(id='e15-static', checks='C15 C21', edits=[(W, '  std::vector<size_t> cellDims(3, 1);\n', '  static std::vector<size_t> cellDims(3, 1);\n')]),
    dict(id='e16-static', checks='C16', edits=[(F, '    double localSum = 0, globalSum = 0;', '    static double localSum = 0;\n    double globalSum = 0;')]),
    dict(id='e27-static', checks='C16', edits=[(U, '    double res = 0;\n', '    static double res = 0;\n')]),
]
