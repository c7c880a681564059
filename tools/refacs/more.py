"""More spellings: algorithms, lambdas, iterators walking, other control flow."""
F = 'cxx/Filter.cpp'
FH = 'cxx/Filter.h'
D = 'cxx/CubeDecomp.cpp'
M = 'cxx/MultiArrayIter.cpp'
U = 'upwind/cxx/upwind.cxx'
FI = 'C05 C06 C16 C19 C27'
REFACS = [
    dict(id='n-fill', checks=FI, edits=[(F, '''    this->mit.begin();
    for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
      this->outData[i] = 0;
      this->mit.next();
    }
''', '''    std::fill_n(this->outData.begin(), this->mit.getNumberOfTerms(), 0.0);
''')]),
    dict(id='n-assign', checks=FI, edits=[(F, '''    this->mit.begin();
    for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
      this->outData[i] = 0;
      this->mit.next();
    }
''', '''    this->outData.assign(this->outData.size(), 0);
''')]),
    dict(id='n-inside-anyof', checks=FI, edits=[(F, '''        bool insideLocalDomain = true;
        for (size_t j = 0; j < this->ndims; ++j) {
          indOffset[j] = (int) inds[j] + offset[j];
          // periodic boundary conditions
          const int numCells = (int) this->globalDims[j];
          indOffset[j] = ((indOffset[j] % numCells) + numCells) % numCells;

          // check if inside local MPI domain
          insideLocalDomain &= (indOffset[j] >= (int) this->lo[j]);
          insideLocalDomain &= (indOffset[j] < (int) this->hi[j]);
        }
''', '''        size_t numInside = 0;
        for (size_t j = 0; j < this->ndims; ++j) {
          const int numCells = (int) this->globalDims[j];
          int k = (int) inds[j] + offset[j];
          k %= numCells;
          if (k < 0) k += numCells;
          indOffset[j] = k;
          if (k >= (int) this->lo[j] && k < (int) this->hi[j]) ++numInside;
        }
        const bool insideLocalDomain = numInside == this->ndims;
''')]),
    dict(id='n-inside-lambda', checks=FI, edits=[(F, '''        bool insideLocalDomain = true;
        for (size_t j = 0; j < this->ndims; ++j) {
          indOffset[j] = (int) inds[j] + offset[j];
          // periodic boundary conditions
          const int numCells = (int) this->globalDims[j];
          indOffset[j] = ((indOffset[j] % numCells) + numCells) % numCells;

          // check if inside local MPI domain
          insideLocalDomain &= (indOffset[j] >= (int) this->lo[j]);
          insideLocalDomain &= (indOffset[j] < (int) this->hi[j]);
        }
''', '''        auto wrap = [](int k, int n) { return ((k % n) + n) % n; };
        auto inside = [&]() {
          for (size_t j = 0; j < this->ndims; ++j) {
            if (indOffset[j] < (int) this->lo[j] || indOffset[j] >= (int) this->hi[j]) {
              return false;
            }
          }
          return true;
        };
        for (size_t j = 0; j < this->ndims; ++j) {
          indOffset[j] = wrap((int) inds[j] + offset[j], (int) this->globalDims[j]);
        }
        const bool insideLocalDomain = inside();
''')]),
    dict(id='n-source-ternary', checks=FI, edits=[(F, '''        if (insideLocalDomain) {
          // local update
          int bi2 = this->mit.computeBigIndex(indOffset);
          this->outData[i] += val * this->inData[(size_t) bi2];
        }
        else if (dstData) {
          // update using halo data
          size_t bi2 = wit.computeBigIndex(indOffset);
          // update ghosts
          this->outData[i] += val * dstData[bi2];
        }
''', '''        const MultiArrayIter& from = insideLocalDomain? this->mit: wit;
        const double* source = insideLocalDomain? &this->inData[0]: dstData;
        if (source) {
          this->outData[i] += val * source[from.computeBigIndex(indOffset)];
        }
''')]),
    dict(id='n-side-transform', checks=FI, edits=[(F, '''    std::vector<int> side(this->ndims);
    for (size_t i = 0; i < this->ndims; ++i) {
      side[i] = 0;
      if (offset[i] != 0) {
          side[i] = - offset[i]/std::abs(offset[i]);
      }
    }
    return side;
''', '''    std::vector<int> side(offset.size());
    std::transform(offset.begin(), offset.end(), side.begin(), [](int o) { return (o < 0) - (o > 0); });
    return side;
'''), (F, '#include "Filter.h"', '#include "Filter.h"\n#include <algorithm>')]),
    dict(id='n-ghosts-maxelem', checks=FI, edits=[(F, '''    size_t numGhosts = 0;
    for (size_t i = 0; i < offset.size(); ++i) {
      size_t absOffset = std::abs(offset[i]);
      numGhosts = (absOffset > numGhosts? absOffset: numGhosts);
    }
    return numGhosts;
''', '''    size_t numGhosts = 0;
    for (int o: offset) {
      numGhosts = std::max(numGhosts, (size_t) std::abs(o));
    }
    return numGhosts;
''')]),
    dict(id='n-ghosts-accum', checks=FI, edits=[(F, '''    size_t numGhosts = 0;
    for (size_t i = 0; i < offset.size(); ++i) {
      size_t absOffset = std::abs(offset[i]);
      numGhosts = (absOffset > numGhosts? absOffset: numGhosts);
    }
    return numGhosts;
''', '''    return std::accumulate(offset.begin(), offset.end(), (size_t) 0,
                           [](size_t n, int o) { return std::max(n, (size_t) std::abs(o)); });
'''), (F, '#include "Filter.h"', '#include "Filter.h"\n#include <algorithm>\n#include <numeric>')]),
    dict(id='n-countif', checks=FI, edits=[(F, '''    size_t res = 0;
    for (size_t i = 0; i < v.size(); ++i) {
      if (v[i] != 0) {
        res++;
      }
    }
    return res;
''', '''    return v.size() - std::count(v.begin(), v.end(), 0);
'''), (F, '#include "Filter.h"', '#include "Filter.h"\n#include <algorithm>')]),
    dict(id='n-pairs', checks=FI, edits=[(F, '''    for (std::map< std::vector<int>, std::pair<double*, double*> >::const_iterator it = this->winData.begin(); 
      it != winData.end(); ++it) {

      const std::vector<int>& side = it->first;
      double* srcData = this->winData.find(side)->second.first;
      MultiArrayIter& wit = this->winIter.find(side)->second;

      wit.begin();
      for (size_t i = 0; i < wit.getNumberOfTerms(); ++i) {
        std::vector<size_t> inds = wit.getIndices();
        size_t bi = this->mit.computeBigIndex(inds);
        srcData[i] = this->outData[bi];
        wit.next();
      }
    }
''', '''    for (auto& entry: this->winIter) {
      MultiArrayIter& wit = entry.second;
      double* to = this->winData.at(entry.first).first;
      wit.begin();
      for (double* p = to; p != to + wit.getNumberOfTerms(); ++p, wit.next()) {
        *p = this->outData[this->mit.computeBigIndex(wit.getIndices())];
      }
    }
''')]),
    dict(id='n-window-narrow', checks=FI, edits=[(F, '''    // narrow the start/end indices to the window size
    size_t n = 1;
    for (size_t i = 0; i < this->ndims; ++i) {
      if (side[i] != 0) {
        n *= numGhosts;
        if (side[i] < 0) {
          // low side
          sHi[i] = sLo[i] + numGhosts;
        }
        else {
          // hi side
          sLo[i] = sHi[i] - numGhosts;
        }
      }
      else {
        n *= (this->hi[i] - this->lo[i]);
      }
    }
''', '''    for (size_t i = 0; i < this->ndims; ++i) {
      switch (side[i]) {
      case -1:
        sHi[i] = sLo[i] + numGhosts;
        break;
      case 1:
        sLo[i] = sHi[i] - numGhosts;
        break;
      default:
        break;
      }
    }
''')]),
    dict(id='n-direction', checks=FI, edits=[(F, '''      std::vector<int> direction(this->ndims);
      for (size_t j = 0; j < this->ndims; ++j) {
        direction[j] = - side[j];
      }
''', '''      std::vector<int> direction(side);
      std::transform(direction.begin(), direction.end(), direction.begin(), std::negate<int>());
'''), (F, '#include "Filter.h"', '#include "Filter.h"\n#include <algorithm>\n#include <functional>')]),
    dict(id='n-newwindow-make', checks=FI, edits=[(F, '''    std::pair<double*, double*> pSrcDst(srcData, dstData);
    this->winData.insert( std::pair< std::vector<int>, std::pair<double*, double*> >(side, pSrcDst) );
    this->windows.insert( std::pair< std::vector<int>, MPI_Win >(side, win) );
    this->winIter.insert( std::pair< std::vector<int>, MultiArrayIter >(side, sit) );
''', '''    this->winData.insert(std::make_pair(side, std::make_pair(srcData, dstData)));
    this->windows.emplace(side, win);
    this->winIter.insert(std::make_pair(side, sit));
''')]),
    dict(id='n-delete-ref', checks='C08 C06', edits=[(F, '''     for (std::map< std::vector<int>, MPI_Win >::const_iterator it = this->windows.begin();
       it != this->windows.end(); ++it) {
       this->deleteWindow(it->first);
     }
''', '''     while (!this->windows.empty()) {
       const std::vector<int> side = this->windows.begin()->first;
       this->deleteWindow(side);
       this->windows.erase(side);
     }
''')]),
    dict(id='n-delete-count', checks='C08 C06', edits=[(F, '''    std::map< std::vector<int>, MPI_Win >::iterator winIt = this->windows.find(side);
    if (winIt != this->windows.end()) {
      MPI_Win_free(&winIt->second);
    }
    
    std::map< std::vector<int>, std::pair<double*, double*> >::iterator dataIt = this->winData.find(side);
    if (dataIt != this->winData.end()) {
      MPI_Free_mem(dataIt->second.first);
      MPI_Free_mem(dataIt->second.second);
    }
''', '''    if (this->windows.count(side) > 0) {
      MPI_Win_free(&this->windows[side]);
    }
    if (this->winData.count(side) > 0) {
      const std::pair<double*, double*>& both = this->winData[side];
      for (double* p: {both.first, both.second}) {
        MPI_Free_mem(p);
      }
    }
''')]),
    dict(id='n-checksum-ptr', checks='C16 C07 C27', edits=[(F, '''    double localSum = 0, globalSum = 0;
    this->mit.begin();
    if (inOrOut == "input") {
      for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
        localSum += this->inData[i];
        this->mit.next();
      }
    }
    else {
      for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
        localSum += this->outData[i];
        this->mit.next();
      }
    }
''', '''    const std::vector<double>& data = (inOrOut == "input")? this->inData: this->outData;
    double localSum = 0;
    for (std::vector<double>::const_iterator d = data.begin(); d != data.end(); ++d) {
      localSum += *d;
    }
    double globalSum = 0;
''')]),
    dict(id='n-checksum-rev', checks='C16 C07 C27', edits=[(F, '''      for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
        localSum += this->inData[i];
        this->mit.next();
      }
''', '''      for (size_t i = this->mit.getNumberOfTerms(); i-- > 0;) {
        localSum += this->inData[i];
      }
''')]),
    dict(id='n-save-early', checks='C20 C27 C19', edits=[(F, '''    std::vector<double> globalField;
    std::vector<size_t> globalInds(this->ndims);

    if (this->rk == 0) {
''', '''    if (this->rk != 0) {
      return;
    }
    std::vector<double> globalField;
    std::vector<size_t> globalInds(this->ndims);
    {
''')]),
    dict(id='n-save-walk', checks='C20 C27 C19', edits=[(F, '''          std::vector<size_t> localInds = this->mit.getIndices();
          for (size_t i = 0; i < this->ndims; ++i) {
            globalInds[i] = begInds[i] + localInds[i];
          }
''', '''          const std::vector<size_t> localInds = this->mit.getIndices();
          std::transform(begInds.begin(), begInds.end(), localInds.begin(), globalInds.begin(), std::plus<size_t>());
'''), (F, '#include "Filter.h"', '#include "Filter.h"\n#include <algorithm>\n#include <functional>')]),
    dict(id='n-cost', checks='C02 C03', edits=[(D, '''    size_t volume = 1;
    size_t surface = 0;
    for (size_t i = 0; i < this->ndims; ++i) {
      volume *= localDims[i];
      size_t area = 1;
      for (size_t j = 0; j < this->ndims; ++j) {
        if (j != i) area *= localDims[j];
      }
      surface += area;
    }
    return (double) surface / (double) volume;
''', '''    const size_t volume = std::accumulate(localDims.begin(), localDims.end(), (size_t) 1, std::multiplies<size_t>());
    size_t surface = 0;
    for (size_t n: localDims) {
      // the faces normal to this axis
      surface += volume / n;
    }
    return (double) surface / (double) volume;
''')]),
    dict(id='n-neigh', checks='C04 C05', edits=[(D, '''      indOffset[i] = inds[i] + dir[i];

      // apply periodic BCs outside of domain
      if (indOffset[i] < 0) {
        indOffset[i] += this->decomp[i];
      }
      else if (indOffset[i] >= this->decomp[i]) {
        indOffset[i] -= this->decomp[i];
      }
''', '''      const int n = (int) this->decomp[i];
      int k = (int) inds[i] + dir[i];
      k += k < 0? n: (k >= n? -n: 0);
      indOffset[i] = k;
''')]),
    dict(id='n-factors', checks='C02 C03', edits=[(D, '''    std::vector<size_t> res(1, 1);
    size_t n2 = n / 2;
    for (size_t k = 2; k <= n2; ++k) {
      if ((n / k)*k == n) {
        res.push_back(k);
      }
    }
    res.push_back(n);
    return res;
''', '''    std::vector<size_t> res;
    for (size_t k = 1; k <= n; ++k) {
      if (n % k == 0) {
        res.push_back(k);
      }
    }
    return res;
''')]),
    dict(id='n-strides', checks='C01', edits=[(M, '''		for (int i = (int) this->ndims - 2; i >= 0; --i) {
			this->dimProd[i] = this->dimProd[i + 1] * this->dims[i + 1];
		}
''', '''		size_t stride = 1;
		for (size_t i = this->ndims; i-- > 0;) {
			this->dimProd[i] = stride;
			stride *= this->dims[i];
		}
''')]),
    dict(id='n-dims', checks='C01', edits=[(M, '''	this->dims.resize(this->ndims);
	for (size_t i = 0; i < this->ndims; ++i) {
		this->dims[i] = hi[i] - lo[i];
	}
''', '''	this->dims.clear();
	std::transform(hi.begin(), hi.end(), lo.begin(), std::back_inserter(this->dims), std::minus<size_t>());
'''), (M, '#include "MultiArrayIter.h"', '#include "MultiArrayIter.h"\n#include <algorithm>\n#include <functional>\n#include <iterator>')]),
    dict(id='n-up-std', checks='C16 C27', edits=[(U, '''    double res = 0;
    for (auto i = 0; i < this->f.size(); ++i) {
      double d = this->f[i] - mean;
      res += d*d;
    }
''', '''    const double res = std::accumulate(this->f.begin(), this->f.end(), 0.0,
                                       [mean](double s, double x) { return s + (x - mean)*(x - mean); });
''')]),
    dict(id='n-up-std2', checks='C16 C27', edits=[(U, '''    double res = 0;
    for (auto i = 0; i < this->f.size(); ++i) {
      double d = this->f[i] - mean;
      res += d*d;
    }
    return sqrt(res /static_cast<double>(this->ntot));
''', '''    std::vector<double> dev(this->f);
    for (double& d: dev) {
      d -= mean;
    }
    return sqrt(std::inner_product(dev.begin(), dev.end(), dev.begin(), 0.0) / static_cast<double>(this->ntot));
''')]),
    dict(id='n-up-foreach', checks='C27 C28', edits=[(U, '''    for (size_t i = 0; i < this->f.size(); ++i) {
      std::cout << i << " " << this->f[i] << '\\n';
    }
''', '''    size_t i = 0;
    for (const auto& value: this->f) {
      std::cout << i++ << " " << value << '\\n';
    }
''')]),
    dict(id='n-up-copy', checks='C09 C10 C11', edits=[(U, '''      #pragma omp for
      for (int i = 0; i < (int) this->ntot; ++i) {
        oldFPtr[i] = fPtr[i];
      }
''', '''      #pragma omp single
      std::copy(fPtr, fPtr + this->ntot, oldFPtr);
''')]),
    dict(id='n-up-nowrap', checks='C09 C10 C11', edits=[(U, '''          // periodic BCs
          inds[j] += this->upDirection[j] + this->numCells[j];
          inds[j] %= this->numCells[j];
''', '''          // periodic BCs
          const int last = (int) this->numCells[j] - 1;
          if (this->upDirection[j] > 0) {
            inds[j] = inds[j] == last? 0: inds[j] + 1;
          }
          else {
            inds[j] = inds[j] == 0? last: inds[j] - 1;
          }
''')]),
    dict(id='n-up-index', checks='C09 C10 C11', edits=[(U, '''        std::array<int, NDIMS> inds = this->getIndexSet(i);

        for''', '''        std::array<int, NDIMS> inds;
        int rest = i;
        for (size_t k = 0; k < NDIMS; ++k) {
          inds[k] = rest / (int) this->dimProd[k];
          rest -= inds[k] * (int) this->dimProd[k];
        }

        for''')]),
    dict(id='n-up-local', checks='C09 C10 C11', edits=[(U, '''          fPtr[i] -= coeff * (oldFPtr[upI] - oldFPtr[i]);

          inds[j] = oldIndex;
        }
''', '''          change += coeff * (oldFPtr[upI] - oldFPtr[i]);

          inds[j] = oldIndex;
        }
        fPtr[i] = oldFPtr[i] - change;
'''), (U, '''        std::array<int, NDIMS> inds = this->getIndexSet(i);

        for''', '''        std::array<int, NDIMS> inds = this->getIndexSet(i);
        double change = 0;

        for''')]),
]
