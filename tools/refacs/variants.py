U = 'upwind/cxx/upwind.cxx'
UT = 'upwind/cxx/upwindOMPTasks.cxx'
U5 = 'upwind/cxx/upwindOMP5.cxx'
UA = 'upwind/cxx/upwindAcc.cxx'
U2 = 'upwind/cxx/upwindAcc2.cxx'
UM = 'upwind/cxx/upwindMpi.cxx'
SV = 'upwind/cxx/saveVTK.h'
MP = 'C05 C07 C08 C12 C14 C16 C18 C20 C19'
VA = 'C09 C10 C11 C12 C14 C16 C17 C18 C19 C20 C21'

TIMES = '''      double sumTime, minTime, maxTime;
      MPI_Reduce(&walltime, &sumTime, 1, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
      MPI_Reduce(&walltime, &minTime, 1, MPI_DOUBLE, MPI_MIN, 0, MPI_COMM_WORLD);
      MPI_Reduce(&walltime, &maxTime, 1, MPI_DOUBLE, MPI_MAX, 0, MPI_COMM_WORLD);
'''
STENCIL = '''    // assemble the stencil
    std::map< std::vector<int>, double > stencil;
    std::vector<int> offset(numDims, 0);

    // diagonal
    double val = 1.0;
    for (size_t i = 0; i < velocities.size(); ++i) {
      val -= signs[i] * dt * velocities[i] / deltas[i];
    }
    stencil.insert( std::pair< std::vector<int>, double >(offset, val) );

    // upwind contributions
    for (size_t i = 0; i < numDims; ++i) {
      offset[i] = -signs[i];
      stencil.insert( std::pair< std::vector<int>, double >(offset, 
                      signs[i] * dt * velocities[i] / deltas[i]) );
      // reset
      offset[i] = 0;
    }
'''
MAINLINE = '///////////////////////////////////////////////////////////////////////////////\nint main(int argc'
STEPS = '''      for (size_t i = 0; i < numSteps; ++i) {
        fltr.applyFilter();
#define CHECK_NAN
#ifdef CHECK_NAN
        double inSum = fltr.computeCheckSum("input");
        double outSum = fltr.computeCheckSum("output");
        if (fltr.getRank() == 0) {
        	std::cout << "iter " << i << " check sum  in/out = " << inSum << " / " << outSum << '\\n';
        }
#endif
        fltr.copyOutToIn();
      }
'''
DT = '''    double dt = std::numeric_limits<double>::max();
    for (size_t j = 0; j < velocities.size(); ++j) {
      double dx = lengths[j] / (double) numCells;
      deltas[j] = dx;
      double val = courant * dx / velocities[j];
      dt = (val < dt? val: dt);
      signs[j] = (velocities[j] > 0? 1: -1);
    }
'''
KERN = '''        std::array<int, NDIMS> inds = this->getIndexSet(i);

        for (size_t j = 0; j < NDIMS; ++j) {

          int oldIndex = inds[j];
          const double coeff = deltaTime * this->v[j] * this->upDirection[j] / this->deltas[j];

          // periodic BCs
          inds[j] += this->upDirection[j] + this->numCells[j];
          inds[j] %= this->numCells[j];

          size_t upI = this->getFlatIndex(&inds[0]);

          fPtr[i] -= coeff * (oldFPtr[upI] - oldFPtr[i]);

          inds[j] = oldIndex;
        }
'''
A2LOOP = '''            int upI;

            // fill in inds
            #include "compute_index_set.h"

            #include "compute_flat_index_offset_x.h"
            fPtr[i] -= deltaTime * coeffPtr[0] * (fOldPtr[upI] - fOldPtr[i]);

            #include "compute_flat_index_offset_y.h"
            fPtr[i] -= deltaTime * coeffPtr[1] * (fOldPtr[upI] - fOldPtr[i]);

            #include "compute_flat_index_offset_z.h"
            fPtr[i] -= deltaTime * coeffPtr[2] * (fOldPtr[upI] - fOldPtr[i]);
'''
MDT = '''  double dt = std::numeric_limits<double>::max();
  for (size_t j = 0; j < velocity.size(); ++j) {
    double dx = lengths[j]/numCells[j];
    double val = courant * dx / velocity[j];
    dt = (val < dt? val: dt);
  }
'''
STD = '''  double std() const {
    double mean = this->checksum()/static_cast<double>(this->ntot);
    double res = 0;
    for (auto i = 0; i < this->f.size(); ++i) {
      double d = this->f[i] - mean;
      res += d*d;
    }
    return sqrt(res /static_cast<double>(this->ntot));
  }
'''
CS = '    return std::accumulate(this->f.begin(), this->f.end(), 0.0, std::plus<double>());\n'
O5COPY = '''            #pragma omp target teams distribute parallel for
            for (int i = 0; i < ntot; ++i) {
                fOldPtr[i] = fPtr[i];
            }

'''

REFACS = [
    dict(id='um-times', checks=MP, edits=[(UM, TIMES, '''      double sumTime = 0, minTime = 0, maxTime = 0;
      MPI_Allreduce(&walltime, &sumTime, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
      MPI_Allreduce(&walltime, &minTime, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
      MPI_Allreduce(&walltime, &maxTime, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
''')]),
    dict(id='um-reduce-helper', checks=MP, edits=[(UM, TIMES, '''      const double sumTime = reduce(walltime, MPI_SUM);
      const double minTime = reduce(walltime, MPI_MIN);
      const double maxTime = reduce(walltime, MPI_MAX);
'''), (UM, MAINLINE, '''static double reduce(double value, MPI_Op op) {
  double res = 0;
  MPI_Reduce(&value, &res, 1, MPI_DOUBLE, op, 0, MPI_COMM_WORLD);
  return res;
}

''' + MAINLINE)]),
    dict(id='um-times-array', checks=MP, edits=[(UM, TIMES, '''      double sumTime, minTime, maxTime;
      const MPI_Op ops[3] = {MPI_SUM, MPI_MIN, MPI_MAX};
      double* dest[3] = {&sumTime, &minTime, &maxTime};
      for (int q = 0; q < 3; ++q) {
        MPI_Reduce(&walltime, dest[q], 1, MPI_DOUBLE, ops[q], 0, MPI_COMM_WORLD);
      }
''')]),
    dict(id='um-stencil-helper', checks=MP, edits=[(UM, STENCIL, '''    const std::map< std::vector<int>, double > stencil = buildStencil(velocities, deltas, signs, dt);
'''), (UM, MAINLINE, '''typedef std::map< std::vector<int>, double > Stencil;

static Stencil buildStencil(const std::vector<double>& velocities, const std::vector<double>& deltas,
                            const std::vector<int>& signs, double dt) {
  const size_t n = velocities.size();
  Stencil res;
  double centre = 1.0;
  for (size_t i = 0; i < n; ++i) {
    const double c = signs[i] * dt * velocities[i] / deltas[i];
    std::vector<int> off(n, 0);
    off[i] = -signs[i];
    res.insert(std::make_pair(off, c));
    centre -= c;
  }
  res.insert(std::make_pair(std::vector<int>(n, 0), centre));
  return res;
}

''' + MAINLINE)]),
    dict(id='um-steps-while', checks=MP, edits=[(UM, STEPS, '''      size_t step = 0;
      while (step != numSteps) {
        fltr.applyFilter();
        const double inSum = fltr.computeCheckSum("input");
        const double outSum = fltr.computeCheckSum("output");
        if (rk == 0) {
          std::cout << "iter " << step << " check sum  in/out = " << inSum << " / " << outSum << '\\n';
        }
        fltr.copyOutToIn();
        step++;
      }
''')]),
    dict(id='um-dt', checks=MP, edits=[(UM, DT, '''    double dt = std::numeric_limits<double>::infinity();
    for (size_t j = 0; j < numDims; ++j) {
      deltas[j] = lengths[j] / static_cast<double>(numCells);
      signs[j] = velocities[j] > 0? 1: -1;
      dt = std::min(dt, courant * deltas[j] / velocities[j]);
    }
''')]),
    dict(id='um-root', checks=MP, edits=[(UM, '''    if (fltr.getRank() == 0 && !fltr.isDecompValid()) {
      std::cerr << "Decomposition is invalid\\n";
    }
    if (fltr.isDecompValid()) {
''', '''    const bool valid = fltr.isDecompValid();
    if (!valid) {
      if (rk == 0) std::cerr << "Decomposition is invalid\\n";
    }
    else {
''')]),
    dict(id='um-init-cond', checks=MP, edits=[(UM, '''  double res = 0;
  if (std::accumulate(inds.begin(), inds.end(), 0) == 0) {
    res = 1;
  }
  return res;
''', '''  return std::all_of(inds.begin(), inds.end(), [](size_t i) {return i == 0;})? 1.0: 0.0;
'''), (UM, '#include <cmath>', '#include <cmath>\n#include <algorithm>')]),
    dict(id='um-init-cond2', checks=MP, edits=[(UM, '''  double res = 0;
  if (std::accumulate(inds.begin(), inds.end(), 0) == 0) {
    res = 1;
  }
  return res;
''', '''  const std::vector<size_t> corner(inds.size(), 0);
  return inds == corner? 1: 0;
''')]),
    dict(id='um-init-lambda', checks=MP, edits=[(UM, '''      fltr.setInDataByIndices(initialCondition);
''', '''      double (*corner)(const std::vector<size_t>&) = initialCondition;
      fltr.setInDataByIndices(corner);
''')]),
    dict(id='um-run-function', checks=MP, edits=[(UM, STEPS, '''      for (size_t i = 0; i < numSteps; ++i) step(fltr, i);
'''), (UM, MAINLINE, '''static void step(Filter& fltr, size_t i) {
  fltr.applyFilter();
  const double inSum = fltr.computeCheckSum("input");
  const double outSum = fltr.computeCheckSum("output");
  if (fltr.getRank() == 0) {
    std::cout << "iter " << i << " check sum  in/out = " << inSum << " / " << outSum << '\\n';
  }
  fltr.copyOutToIn();
}

''' + MAINLINE)]),
    dict(id='um-pointer', checks=MP, edits=[(UM, '''    Filter fltr(globalDims, xmins, lengths, stencil);
''', '''    std::unique_ptr<Filter> owner(new Filter(globalDims, xmins, lengths, stencil));
    Filter& fltr = *owner;
'''), (UM, '#include <cmath>', '#include <cmath>\n#include <memory>')]),
    dict(id='um-enum-array', checks=MP, edits=[(UM, '''    std::vector<size_t> globalDims(numDims, numCells);

    // set the domain boundaries
    std::vector<double> xmins(numDims, 0.0);
''', '''    std::vector<size_t> globalDims;
    std::vector<double> xmins;
    for (size_t j = 0; j < numDims; ++j) {
      globalDims.push_back(numCells);
      xmins.push_back(0.0);
    }
''')]),
    # OpenACC, one loop nest
    dict(id='a2-lambda', checks=VA, edits=[(U2, A2LOOP, '''            #include "compute_index_set.h"
            double sum = 0;
            int upI;
            #include "compute_flat_index_offset_x.h"
            sum += coeffPtr[0] * (fOldPtr[upI] - fOldPtr[i]);
            #include "compute_flat_index_offset_y.h"
            sum += coeffPtr[1] * (fOldPtr[upI] - fOldPtr[i]);
            #include "compute_flat_index_offset_z.h"
            sum += coeffPtr[2] * (fOldPtr[upI] - fOldPtr[i]);
            fPtr[i] = fOldPtr[i] - deltaTime * sum;
''')]),
    dict(id='a2-offsets', checks=VA, edits=[(U2, A2LOOP, '''            #include "compute_index_set.h"
            for (int j = 0; j < (int) NDIMS; ++j) {
              const int up = (inds[j] + upDirectionPtr[j] + numCellsPtr[j]) % numCellsPtr[j];
              const int upI = i + (up - inds[j]) * dimProdPtr[j];
              fPtr[i] -= deltaTime * coeffPtr[j] * (fOldPtr[upI] - fOldPtr[i]);
            }
''')]),
    dict(id='a2-no-inds', checks=VA, edits=[(U2, A2LOOP, '''            for (int j = 0; j < (int) NDIMS; ++j) {
              const int at = i / dimProdPtr[j] % numCellsPtr[j];
              int up = at + upDirectionPtr[j];
              if (up < 0) up = numCellsPtr[j] - 1;
              if (up == numCellsPtr[j]) up = 0;
              fPtr[i] -= deltaTime * coeffPtr[j] * (fOldPtr[i + (up - at) * dimProdPtr[j]] - fOldPtr[i]);
            }
''')]),
    dict(id='a2-swap', checks=VA, edits=[(U2, '''            fPtr[i] -= deltaTime * coeffPtr[2] * (fOldPtr[upI] - fOldPtr[i]);

          } // acc parallel loop
''', '''            fPtr[i] += deltaTime * coeffPtr[2] * (fOldPtr[i] - fOldPtr[upI]);

          } // acc parallel loop
''')]),
    dict(id='a2-nested', checks=VA, edits=[(U2, '''          #pragma acc parallel loop
          for (int i = 0; i < ntot; ++i) {
              fOldPtr[i] = fPtr[i];
          }
''', '''          #pragma acc parallel loop
          for (int p = 0; p < numCellsPtr[0]; ++p) {
            for (int q = 0; q < dimProdPtr[0]; ++q) {
              const int i = p * dimProdPtr[0] + q;
              fOldPtr[i] = fPtr[i];
            }
          }
''')]),
    dict(id='a2-std', checks='C12 C14 C16 C17 C21', edits=[(U2, STD, '''  double std() const {
    const double mean = this->checksum() / (double) this->ntot;
    double res = 0;
    for (double x : this->f) res += (x - mean) * (x - mean);
    return std::sqrt(res / this->ntot);
  }
'''), (U2, CS, '''    double res = 0;
    for (size_t i = 0; i < this->f.size(); ++i) res += this->f[i];
    return res;
''')]),
    dict(id='a2-dt', checks='C10 C12 C14 C18 C21', edits=[(U2, MDT, '''  double dt = courant * lengths[0] / numCells[0] / velocity[0];
  for (int j = 1; j < ndims; ++j) {
    dt = std::min(dt, courant * (lengths[j] / numCells[j]) / velocity[j]);
  }
''')]),
    dict(id='ac-step-loop', checks=VA, edits=[(UA, '''  for (int i = 0; i < numTimeSteps; ++i) {
    up.advect(dt);
  }
''', '''  int left = numTimeSteps;
  while (left > 0) {
    up.advect(dt);
    --left;
  }
''')]),
    dict(id='ac-oldmember', checks=VA, edits=[(UA, '''    std::vector<double> oldF(this->f);
''', '''    std::vector<double> oldF(this->f.size());
    std::copy(this->f.begin(), this->f.end(), oldF.begin());
''')]),
    dict(id='ac-oldassign', checks=VA, edits=[(UA, '''    std::vector<double> oldF(this->f);
''', '''    std::vector<double> oldF;
    oldF = this->f;
''')]),
    # OpenMP offload
    dict(id='o5-nested', checks=VA, edits=[(U5, O5COPY, '''            #pragma omp target teams distribute parallel for collapse(2)
            for (int p = 0; p < numCellsPtr[0]; ++p) {
                for (int q = 0; q < dimProdPtr[0]; ++q) {
                    fOldPtr[p * dimProdPtr[0] + q] = fPtr[p * dimProdPtr[0] + q];
                }
            }

''')]),
    dict(id='o5-old-zero', checks=VA, edits=[(U5, '''    std::vector<double> oldF(this->f);
''', '''    std::vector<double> oldF(this->ntot, 0.0);
''')]),
    dict(id='o5-scalars', checks=VA, edits=[(U5, '''                int inds[NDIMS];
                int upI;

                #include "compute_index_set.h"

                #include "compute_flat_index_offset_x.h"
                fPtr[i] -= deltaTime * coeffPtr[0] * (fOldPtr[upI] - fOldPtr[i]);

                #include "compute_flat_index_offset_y.h"
                fPtr[i] -= deltaTime * coeffPtr[1] * (fOldPtr[upI] - fOldPtr[i]);

                #include "compute_flat_index_offset_z.h"
                fPtr[i] -= deltaTime * coeffPtr[2] * (fOldPtr[upI] - fOldPtr[i]);
''', '''                const int nx = numCellsPtr[0], ny = numCellsPtr[1], nz = numCellsPtr[2];
                const int x = i / (ny * nz), y = i / nz % ny, z = i % nz;
                const int xu = (x + upDirectionPtr[0] + nx) % nx;
                const int yu = (y + upDirectionPtr[1] + ny) % ny;
                const int zu = (z + upDirectionPtr[2] + nz) % nz;
                fPtr[i] -= deltaTime * coeffPtr[0] * (fOldPtr[(xu * ny + y) * nz + z] - fOldPtr[i]);
                fPtr[i] -= deltaTime * coeffPtr[1] * (fOldPtr[(x * ny + yu) * nz + z] - fOldPtr[i]);
                fPtr[i] -= deltaTime * coeffPtr[2] * (fOldPtr[(x * ny + y) * nz + zu] - fOldPtr[i]);
''')]),
    # tasks
    dict(id='ot-taskloop', checks=VA, edits=[(UT, '''#pragma omp parallel
    for (int istep = 0; istep < numTimeSteps; ++istep) {

      #pragma omp for
      for (int i = 0; i < (int) this->ntot; ++i) {
        oldFPtr[i] = fPtr[i];
      }
        
      #pragma omp for
''', '''    for (int istep = 0; istep < numTimeSteps; ++istep) {

      #pragma omp parallel for
      for (int i = 0; i < (int) this->ntot; ++i) {
        oldFPtr[i] = fPtr[i];
      }
        
      #pragma omp parallel for
''')]),
    dict(id='ot-offset', checks=VA, edits=[(UT, KERN, '''        const std::array<int, NDIMS> inds = this->getIndexSet(i);
        double value = oldFPtr[i];
        for (size_t j = 0; j < NDIMS; ++j) {
          const int n = (int) this->numCells[j];
          std::array<int, NDIMS> up = inds;
          up[j] = (up[j] + this->upDirection[j] + n) % n;
          const size_t upI = this->getFlatIndex(up.data());
          value -= deltaTime * this->v[j] * this->upDirection[j] / this->deltas[j] * (oldFPtr[upI] - oldFPtr[i]);
        }
        fPtr[i] = value;
''')]),
    dict(id='ot-private-helper', checks=VA, edits=[(UT, KERN, '''        fPtr[i] = this->updated(oldFPtr, i, deltaTime);
'''), (UT, '''  inline
  std::array<int, NDIMS> getIndexSet(size_t flatIndex) const {
''', '''  double updated(const double* old, int i, double deltaTime) const {
    double res = old[i];
    std::array<int, NDIMS> inds = this->getIndexSet(i);
    for (size_t j = 0; j < NDIMS; ++j) {
      const int keep = inds[j];
      inds[j] = (keep + this->upDirection[j] + this->numCells[j]) % this->numCells[j];
      const double flux = this->v[j] * this->upDirection[j] / this->deltas[j] * (old[this->getFlatIndex(&inds[0])] - old[i]);
      res -= deltaTime * flux;
      inds[j] = keep;
    }
    return res;
  }

  inline
  std::array<int, NDIMS> getIndexSet(size_t flatIndex) const {
''')]),
    dict(id='ot-flat-loop', checks=VA, edits=[(UT, '''    return std::inner_product(this->dimProd.begin(), this->dimProd.end(), &inds[0], 0);
''', '''    size_t res = 0;
    for (size_t j = 0; j < NDIMS; ++j) {
      res = res * this->numCells[j] + inds[j];
    }
    return res;
'''), (UT, '''      res[i] = flatIndex / this->dimProd[i] % this->numCells[i];
''', '''      res[i] = flatIndex / this->dimProd[i];
      flatIndex %= this->dimProd[i];
''')]),
    dict(id='ot-omp-fn', checks=VA, edits=[(UT, '''      int numThreads = omp_get_num_threads();
      int maxNumThreads = omp_get_max_threads();
      int threadId = omp_get_thread_num();
      if (threadId == 0) {
        std::cout << "Running with OpenMP enabled\\n";
        std::cout << "number of threads: " << 
           numThreads << " max number of threads: " << maxNumThreads << '\\n';
      }
''', '''      #pragma omp master
      {
        std::cout << "Running with OpenMP enabled\\n"
                  << "number of threads: " << omp_get_num_threads()
                  << " max number of threads: " << omp_get_max_threads() << '\\n';
      }
''')]),
    dict(id='ot-early', checks='C12 C14 C16 C18 C20', edits=[(UT, '''  if (success && !help) {

    int numTimeSteps''', '''  if (!success) {
    std::cerr << "ERROR when parsing command line arguments\\n";
    args.help();
    return 0;
  }
  if (help) {
    args.help();
    return 0;
  }
  {

    int numTimeSteps'''), (UT, '''  else {
    // error when parsing command line arguments
    if (!success) {
      std::cerr << "ERROR when parsing command line arguments\\n";
    }
    args.help();
  }


''', '')]),
    dict(id='sv-axis-loop', checks='C15 C16 C20', edits=[(SV, '''    if (NDIMS > 2) {
      file << ' ' << this->numCells[2] + 1;
    }
    else {
      file << " 1";
    }
    if (NDIMS > 1) {
      file << ' ' << this->numCells[1] + 1;
    }
    else {
      file << " 1";
    }
    file << ' ' << this->numCells[0] + 1;
    file << "\\nX_COORDINATES ";
''', '''    for (int j = 2; j >= 0; --j) {
      file << ' ' << (j < (int) NDIMS? this->numCells[j] + 1: 1);
    }
    file << "\\nX_COORDINATES ";
''')]),
    dict(id='sv-values', checks='C15 C16 C20', edits=[(SV, '''    for (size_t i = 0; i < this->ntot; ++i) {
      file << this->f[i] << " ";
      if ((i + 1) % 10 == 0) file << '\\n';
    }
    file << '\\n';
''', '''    size_t column = 0;
    for (const double value : this->f) {
      file << value;
      file << (++column % 10 == 0? '\\n': ' ');
    }
    file << std::endl;
''')]),
]
