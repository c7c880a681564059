U = 'upwind/cxx/upwind.cxx'
UT = 'upwind/cxx/upwindOMPTasks.cxx'
U5 = 'upwind/cxx/upwindOMP5.cxx'
UA = 'upwind/cxx/upwindAcc.cxx'
U2 = 'upwind/cxx/upwindAcc2.cxx'
UM = 'upwind/cxx/upwindMpi.cxx'
SV = 'upwind/cxx/saveVTK.h'

KERN = '''        std::array<int, NDIMS> inds = this->getIndexSet(i);

        for (size_t j = 0; j < NDIMS; ++j) {

          int oldIndex = inds[j];
          const double coeff = deltaTime * this->v[j] * this->upDirection[j] / this->deltas[j];

          // periodic BCs
          inds[j] += this->upDirection[j] + this->numCells[j];
          inds[j] %= this->numCells[j];

          size_t upI = this->getFlatIndex(&inds[0]);

          fPtr[i] -= coeff * (oldFPtr[upI] - oldFPtr[i]);

          inds[j] = oldIndex;
        }
'''
COPY = '''      #pragma omp for
      for (int i = 0; i < (int) this->ntot; ++i) {
        oldFPtr[i] = fPtr[i];
      }
        
'''
CTORLOOP = '''    for (size_t j = 0; j < NDIMS; ++j) {
      this->upDirection[j] = -1;
      if (velocity[j] < 0.) this->upDirection[j] = +1;
      this->deltas[j] = lengths[j] / numCells[j];
      this->ntot *= numCells[j];
    }
'''
DIMPROD = '''    this->dimProd[NDIMS - 1] = 1;
    for (int i = (int) NDIMS - 2; i >= 0; --i) {
        // last index varies fastest
        this->dimProd[i] =  this->dimProd[i + 1] * this->numCells[i + 1];
      }
'''
STD = '''    double mean = this->checksum()/static_cast<double>(this->ntot);
    double res = 0;
    for (auto i = 0; i < this->f.size(); ++i) {
      double d = this->f[i] - mean;
      res += d*d;
    }
    return sqrt(res /static_cast<double>(this->ntot));
'''
UP = 'C10 C11 C12 C14 C17 C19 C20 C21'

REFACS = [
    dict(id='up-coeffs', checks=UP, edits=[
        (U, KERN, '''        const std::array<int, NDIMS> inds = this->getIndexSet(i);
        const double fi = oldFPtr[i];
        double change = 0;
        for (size_t j = 0; j < NDIMS; ++j) {
          change += coeffs[j] * (oldFPtr[this->getUpwindIndex(inds, j)] - fi);
        }
        fPtr[i] -= change;
'''),
        (U, '''    double* __restrict__ fPtr = &this->f[0];
''', '''    double* __restrict__ fPtr = &this->f[0];

    std::array<double, NDIMS> coeffs;
    for (size_t j = 0; j < NDIMS; ++j) {
      coeffs[j] = deltaTime * this->v[j] * this->upDirection[j] / this->deltas[j];
    }
'''),
        (U, '''  inline 
  size_t getFlatIndex(''', '''  inline
  size_t getUpwindIndex(std::array<int, NDIMS> inds, size_t j) const {
    const int n = (int) this->numCells[j];
    inds[j] = (inds[j] + this->upDirection[j] + n) % n;
    return this->getFlatIndex(inds.data());
  }

  inline 
  size_t getFlatIndex('''),
    ]),
    dict(id='up-update-direct', checks=UP, edits=[
        (U, KERN, '''        const std::array<int, NDIMS> inds = this->getIndexSet(i);
        double val = oldFPtr[i];
        for (size_t j = 0; j < NDIMS; ++j) {
          const double courant = deltaTime * std::fabs(this->v[j]) / this->deltas[j];
          // index of the upwind neighbour
          int up = inds[j] + this->upDirection[j];
          if (up < 0) up = this->numCells[j] - 1;
          else if (up == (int) this->numCells[j]) up = 0;
          const int upI = i + (up - inds[j]) * (int) this->dimProd[j];
          val += courant * (oldFPtr[upI] - oldFPtr[i]);
        }
        fPtr[i] = val;
''')]),
    dict(id='up-swap', checks=UP, edits=[
        (U, '''    double* __restrict__ oldFPtr = &this->oldF[0];
    double* __restrict__ fPtr = &this->f[0];

#pragma omp parallel
    for (int istep = 0; istep < numTimeSteps; ++istep) {

''', '''    for (int istep = 0; istep < numTimeSteps; ++istep) {

      this->oldF.swap(this->f);
      const double* oldFPtr = this->oldF.data();
      double* fPtr = this->f.data();

'''),
        (U, COPY + '''      #pragma omp for
''', '''      #pragma omp parallel for
'''),
        (U, KERN, '''        std::array<int, NDIMS> inds = this->getIndexSet(i);
        fPtr[i] = oldFPtr[i];

        for (size_t j = 0; j < NDIMS; ++j) {
          const int oldIndex = inds[j];
          inds[j] = (inds[j] + this->upDirection[j] + (int) this->numCells[j]) % (int) this->numCells[j];
          const size_t upI = this->getFlatIndex(&inds[0]);
          inds[j] = oldIndex;
          fPtr[i] -= deltaTime * this->v[j] * this->upDirection[j] / this->deltas[j] * (oldFPtr[upI] - oldFPtr[i]);
        }
''')]),
    dict(id='up-parallel-for', checks=UP, edits=[
        (U, '#pragma omp parallel\n    for (int istep', '    for (int istep'),
        (U, '#pragma omp for\n', '#pragma omp parallel for schedule(static)\n'),
    ]),
    dict(id='up-memcpy', checks=UP, edits=[
        (U, '#pragma omp parallel\n    for (int istep', '    for (int istep'),
        (U, COPY, '''      std::copy(this->f.begin(), this->f.end(), this->oldF.begin());

'''),
        (U, '#pragma omp for\n', '#pragma omp parallel for\n'),
    ]),
    dict(id='up-ctor', checks=UP, edits=[
        (U, CTORLOOP, '''    std::transform(velocity.begin(), velocity.end(), this->upDirection.begin(),
                   [](double vel) { return vel < 0. ? 1 : -1; });
    for (size_t j = 0; j < NDIMS; ++j) {
      this->deltas[j] = lengths[j] / numCells[j];
    }
    this->ntot = std::accumulate(numCells.begin(), numCells.end(), (size_t) 1, std::multiplies<size_t>());
'''),
        (U, DIMPROD, '''    size_t stride = this->ntot;
    for (size_t i = 0; i < NDIMS; ++i) {
      stride /= this->numCells[i];
      this->dimProd[i] = stride;
    }
'''),
        (U, '''    this->f.resize(this->ntot, 0.0);
    this->oldF.resize(this->ntot, 0.0);
    // initialize lower corner to one
    this->f[0] = 1;
''', '''    this->f.assign(this->ntot, 0.0);
    this->oldF.assign(this->ntot, 0.0);
    this->f.front() = 1.0;
''')]),
    dict(id='up-ctor-init', checks=UP, edits=[
        (U, '''         const std::vector<size_t>& numCells) {

    this->numCells = numCells;
    this->deltas.resize(NDIMS);
    this->upDirection.resize(NDIMS);
    this->v = velocity;
    this->lengths = lengths;
    this->ntot = 1;
''', '''         const std::vector<size_t>& numCells) :
    v(velocity), lengths(lengths), deltas(NDIMS), upDirection(NDIMS, -1), dimProd(NDIMS, 1), numCells(numCells), ntot(1) {
'''),
        (U, '''      this->upDirection[j] = -1;
''', ''),
        (U, '''    this->dimProd.resize(NDIMS);
    this->dimProd[NDIMS - 1] = 1;
    for (int i = (int) NDIMS - 2; i >= 0; --i) {
''', '''    for (size_t i = NDIMS - 1; i-- > 0; ) {
''')]),
    dict(id='up-indexset', checks=UP, edits=[
        (U, '''    for (size_t i = 0; i < NDIMS; ++i) {
      res[i] = flatIndex / this->dimProd[i] % this->numCells[i];
    }
    return res;
''', '''    size_t rest = flatIndex;
    for (size_t i = 0; i < NDIMS; ++i) {
      res[i] = (int) (rest / this->dimProd[i]);
      rest -= res[i] * this->dimProd[i];
    }
    return res;
'''),
        (U, '''    return std::inner_product(this->dimProd.begin(), this->dimProd.end(), &inds[0], 0);
''', '''    size_t res = 0;
    for (size_t i = 0; i < NDIMS; ++i) {
      // Horner
      res = res * this->numCells[i] + inds[i];
    }
    return res;
''')]),
    dict(id='up-indexset-rev', checks=UP, edits=[
        (U, '''    for (size_t i = 0; i < NDIMS; ++i) {
      res[i] = flatIndex / this->dimProd[i] % this->numCells[i];
    }
''', '''    // from the fastest varying index
    for (int i = (int) NDIMS - 1; i >= 0; --i) {
      res[i] = flatIndex % this->numCells[i];
      flatIndex /= this->numCells[i];
    }
''')]),
    dict(id='up-std', checks=UP, edits=[
        (U, STD, '''    const double n = static_cast<double>(this->f.size());
    const double mean = this->checksum() / n;
    double res = std::accumulate(this->f.begin(), this->f.end(), 0.0,
      [mean](double acc, double x) { return acc + (x - mean) * (x - mean); });
    return std::sqrt(res / n);
'''),
        (U, '''    return std::accumulate(this->f.begin(), this->f.end(), 0.0, std::plus<double>());
''', '''    double sum = 0;
    for (const double& val : this->f) sum += val;
    return sum;
''')]),
    dict(id='up-main', checks='C07 C12 C14 C16 C19 C20', edits=[
        (U, '''    // compute dt 
    double courant = 0.1;
    double dt = std::numeric_limits<double>::max();
    for (size_t j = 0; j < velocity.size(); ++j) {
      double dx = lengths[j]/numCells[j];
      double val = courant * dx / velocity[j];
      dt = (val < dt? val: dt);
    }
''', '''    const double dt = computeTimeStep(0.1, velocity, lengths, numCells);
'''),
        (U, '''int main(int argc, char** argv) {
''', '''static double computeTimeStep(double courant, const std::vector<double>& velocity,
  const std::vector<double>& lengths, const std::vector<size_t>& numCells) {
  double dt = std::numeric_limits<double>::max();
  for (size_t j = 0; j < velocity.size(); ++j) {
    dt = std::min(dt, courant * lengths[j] / numCells[j] / velocity[j]);
  }
  return dt;
}

int main(int argc, char** argv) {
'''),
        (U, '''  if (success && !help) {

    int numTimeSteps''', '''  if (!success || help) {
    // error when parsing command line arguments
    if (!success) {
      std::cerr << "ERROR when parsing command line arguments\\n";
    }
    args.help();
    return 0;
  }

  {
    const int numTimeSteps'''),
        (U, '''  else {
    // error when parsing command line arguments
    if (!success) {
      std::cerr << "ERROR when parsing command line arguments\\n";
    }
    args.help();
  }


  return 0;
''', '''
  return 0;
'''),
    ]),
    dict(id='vtk-axis-helper', checks='C15 C07 C16', edits=[
        (SV, '''    file << "\\nX_COORDINATES ";
    if (NDIMS > 2) {
      file << this->numCells[2] + 1 << " double\\n";
      for (size_t i = 0; i < this->numCells[2] + 1; ++i) {
        file << ' ' << 0.0 + this->deltas[2] * i;
      }      
    }
    else {
      file << "1 double\\n";
      file << "0.0\\n";
    }
    file << "\\nY_COORDINATES ";
    if (NDIMS > 1) {
      file << this->numCells[1] + 1 << " double\\n";
      for (size_t i = 0; i < this->numCells[1] + 1; ++i) {
        file << ' ' << 0.0 + this->deltas[1] * i;
      }      
    }
    else {
      file << "1 double\\n";
      file << "0.0\\n";
    }
    file << "\\nZ_COORDINATES ";
    file << this->numCells[0] + 1 << " double\\n";
    for (size_t i = 0; i < this->numCells[0] + 1; ++i) {
      file << ' ' << 0.0 + this->deltas[0] * i;
    }
''', '''    file << "\\nX_COORDINATES ";
    this->writeAxis(file, 2);
    file << "\\nY_COORDINATES ";
    this->writeAxis(file, 1);
    file << "\\nZ_COORDINATES ";
    this->writeAxis(file, 0);
'''),
        (SV, '''  void saveVTK(const''', '''  void writeAxis(std::ostream& os, size_t j) const {
    if (j >= NDIMS) {
      os << "1 double\\n0.0\\n";
      return;
    }
    const size_t n = this->numCells[j] + 1;
    os << n << " double\\n";
    for (size_t i = 0; i < n; ++i) os << ' ' << i * this->deltas[j];
  }

  void saveVTK(const'''),
    ]),
    dict(id='vtk-lambda', checks='C15 C07 C16', edits=[
        (SV, '''    if (NDIMS > 2) {
      file << ' ' << this->numCells[2] + 1;
    }
    else {
      file << " 1";
    }
    if (NDIMS > 1) {
      file << ' ' << this->numCells[1] + 1;
    }
    else {
      file << " 1";
    }
    file << ' ' << this->numCells[0] + 1;
''', '''    auto numPoints = [this](size_t j) -> size_t { return j < NDIMS ? this->numCells[j] + 1 : 1; };
    for (int j = 2; j >= 0; --j) {
      file << ' ' << numPoints(j);
    }
'''),
        (SV, '''    std::fstream file;
    file.open(filename.c_str(), std::ios_base::out);
''', '''    std::ofstream file(filename);
'''),
        (SV, '''    for (size_t i = 0; i < this->ntot; ++i) {
      file << this->f[i] << " ";
      if ((i + 1) % 10 == 0) file << '\\n';
    }
''', '''    size_t count = 0;
    for (const auto& val : this->f) {
      file << val << ' ';
      ++count;
      if (count == 10) {
        file << std::endl;
        count = 0;
      }
    }
'''),
    ]),
    dict(id='vtk-stringstream', checks='C15 C07 C16', edits=[
        (SV, '''    std::fstream file;
    file.open(filename.c_str(), std::ios_base::out);
''', '''    std::ostringstream file;
'''),
        (SV, '''    file.close();
''', '''    std::ofstream out(filename.c_str());
    out << file.str();
'''),
    ]),
    dict(id='mpi-stencil', checks='C05 C07 C12 C16 C18 C20', edits=[
        (UM, '''    // diagonal
    double val = 1.0;
    for (size_t i = 0; i < velocities.size(); ++i) {
      val -= signs[i] * dt * velocities[i] / deltas[i];
    }
    stencil.insert( std::pair< std::vector<int>, double >(offset, val) );

    // upwind contributions
    for (size_t i = 0; i < numDims; ++i) {
      offset[i] = -signs[i];
      stencil.insert( std::pair< std::vector<int>, double >(offset, 
                      signs[i] * dt * velocities[i] / deltas[i]) );
      // reset
      offset[i] = 0;
    }
''', '''    double diag = 1.0;
    for (size_t i = 0; i < numDims; ++i) {
      const double weight = dt * std::abs(velocities[i]) / deltas[i];
      diag -= weight;
      std::vector<int> up(numDims, 0);
      up[i] = -signs[i];
      stencil[up] = weight;
    }
    stencil[offset] = diag;
'''),
        (UM, '''  double res = 0;
  if (std::accumulate(inds.begin(), inds.end(), 0) == 0) {
    res = 1;
  }
  return res;
''', '''  for (size_t i : inds) {
    if (i != 0) return 0.;
  }
  return 1.;
'''),
        (UM, '#include <mpi.h>', '#include <mpi.h>\n#include <cstdlib>'),
    ]),
    dict(id='acc-headers', checks='C10 C11 C12 C14 C17 C21', edits=[
        ('upwind/cxx/compute_flat_index_offset_x.h', '''	upI = dimProdPtr[0] * ((inds[0] + upDirectionPtr[0] + numCellsPtr[0]) % numCellsPtr[0]);
	upI += dimProdPtr[1] * inds[1];
	upI += dimProdPtr[2] * inds[2];
''', '''	upI = dimProdPtr[0] * ((inds[0] + upDirectionPtr[0] + numCellsPtr[0]) % numCellsPtr[0]) + dimProdPtr[1] * inds[1] + inds[2];
'''),
        ('upwind/cxx/compute_index_set.h', '''	inds[1] = i / dimProdPtr[1] % numCellsPtr[1];
''', '''	inds[1] = (i % dimProdPtr[0]) / dimProdPtr[1];
'''),
    ]),
    dict(id='omp5-fused', checks='C10 C11 C12 C14 C17 C21', edits=[
        (U5, '''                fPtr[i] -= deltaTime * coeffPtr[0] * (fOldPtr[upI] - fOldPtr[i]);
''', '''                double change = deltaTime * coeffPtr[0] * (fOldPtr[upI] - fOldPtr[i]);
'''),
        (U5, '''                fPtr[i] -= deltaTime * coeffPtr[1] * (fOldPtr[upI] - fOldPtr[i]);
''', '''                change += deltaTime * coeffPtr[1] * (fOldPtr[upI] - fOldPtr[i]);
'''),
        (U5, '''                fPtr[i] -= deltaTime * coeffPtr[2] * (fOldPtr[upI] - fOldPtr[i]);
''', '''                change += deltaTime * coeffPtr[2] * (fOldPtr[upI] - fOldPtr[i]);

                fPtr[i] = fOldPtr[i] - change;
'''),
    ]),
    dict(id='acc2-locals', checks='C10 C11 C12 C14 C17 C21', edits=[
        (U2, '''    int inds[NDIMS];

    #pragma acc data''', '''
    #pragma acc data'''),
        (U2, '''          #pragma acc parallel loop private(inds)
''', '''          #pragma acc parallel loop
'''),
        (U2, '''            int upI;

            // fill''', '''            int upI;
            int inds[NDIMS];

            // fill'''),
    ]),
    dict(id='acc-order', checks='C10 C11 C12 C14 C17 C21', edits=[
        (UA, '''    double* fOldPtr = &oldF.front();
    double* coeffPtr = &this->coeff.front();
    int* upDirectionPtr = &this->upDirection.front();
    int* dimProdPtr = &this->dimProd.front();
    int* numCellsPtr = &this->numCells.front();
    int ntot = this->ntot;
''', '''    const int ntot = this->ntot;
    int* numCellsPtr = this->numCells.data();
    int* dimProdPtr = this->dimProd.data();
    int* upDirectionPtr = this->upDirection.data();
    double* coeffPtr = this->coeff.data();
    double* fOldPtr = oldF.data();
'''),
    ]),
]
