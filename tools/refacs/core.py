MA = 'cxx/MultiArrayIter.cpp'
MH = 'cxx/MultiArrayIter.h'
CD = 'cxx/CubeDecomp.cpp'
CH = 'cxx/CubeDecomp.h'
FC = 'cxx/Filter.cpp'
FH = 'cxx/Filter.h'

WIN = '''    for (std::map< std::vector<int>, std::pair<double*, double*> >::const_iterator it = this->winData.begin(); 
      it != winData.end(); ++it) {

      const std::vector<int>& side = it->first;
      double* srcData = this->winData.find(side)->second.first;
      MultiArrayIter& wit = this->winIter.find(side)->second;

      wit.begin();
      for (size_t i = 0; i < wit.getNumberOfTerms(); ++i) {
        std::vector<size_t> inds = wit.getIndices();
        size_t bi = this->mit.computeBigIndex(inds);
        srcData[i] = this->%s[bi];
        wit.next();
      }
    }
'''

REFACS = [
    dict(id='mai-strides', checks='C01 C26', edits=[
        (MA, '''	if (rowMajor) {
		this->dimProd[this->ndims - 1] = 1;
		for (int i = (int) this->ndims - 2; i >= 0; --i) {
			this->dimProd[i] = this->dimProd[i + 1] * this->dims[i + 1];
		}
	}
	else {
		this->dimProd[0] = 1;
		for (size_t i = 1; i < this->ndims; ++i) {
			this->dimProd[i] =  this->dimProd[i - 1] * this->dims[i - 1];
		}
	}
''', '''	// running product of the extents, from the fastest varying index
	size_t prod = 1;
	for (size_t k = 0; k < this->ndims; ++k) {
		const size_t i = (rowMajor ? this->ndims - 1 - k : k);
		this->dimProd[i] = prod;
		prod *= this->dims[i];
	}
''')]),
    dict(id='mai-accumulate', checks='C01 C26', edits=[
        (MA, '#include "MultiArrayIter.h"\n', '#include "MultiArrayIter.h"\n#include <numeric>\n#include <functional>\n#include <algorithm>\n'),
        (MA, '''	this->ntot = 1;
	for (size_t i = 0; i < this->ndims; ++i) {
		this->ntot *= dims[i];
	}
''', '''	this->ntot = std::accumulate(this->dims.begin(), this->dims.end(), (size_t) 1, std::multiplies<size_t>());
'''),
        (MA, '''	for (size_t i = 0; i < this->ndims; ++i) {
		this->dims[i] = hi[i] - lo[i];
	}
''', '''	std::transform(hi.begin(), hi.end(), lo.begin(), this->dims.begin(), std::minus<size_t>());
''')]),
    dict(id='mai-helper', checks='C01 C26 C02', edits=[
        (MH, 'private:', '''private:

	/** compute the strides */
	void computeStrides() {
		if (this->rowMajor) {
			size_t i = this->ndims;
			size_t stride = 1;
			while (i > 0) {
				--i;
				this->dimProd[i] = stride;
				stride *= this->dims[i];
			}
			return;
		}
		size_t stride = 1;
		for (auto i = this->ndims - this->ndims; i != this->ndims; i++) {
			this->dimProd[i] = stride;
			stride = stride * this->dims[i];
		}
	}
'''),
        (MA, '''	if (rowMajor) {
		this->dimProd[this->ndims - 1] = 1;
		for (int i = (int) this->ndims - 2; i >= 0; --i) {
			this->dimProd[i] = this->dimProd[i + 1] * this->dims[i + 1];
		}
	}
	else {
		this->dimProd[0] = 1;
		for (size_t i = 1; i < this->ndims; ++i) {
			this->dimProd[i] =  this->dimProd[i - 1] * this->dims[i - 1];
		}
	}
''', '''	this->computeStrides();
''')]),
    dict(id='cd-indices-helper', checks='C02 C03 C04', edits=[
        (CD, '''    size_t bi = (size_t) rk;
    this->mit.move(bi);
    std::vector<size_t> inds = this->mit.getIndices();
    std::vector<size_t> res(this->ndims);
    for (size_t i = 0; i < this->ndims; ++i) {
      res[i] = inds[i] * localDims[i];
    }
    return res;
''', '''    this->mit.move(static_cast<size_t>(rk));
    std::vector<size_t> res(this->mit.getIndices());
    for (size_t i = 0; i < res.size(); ++i) {
      res[i] *= this->localDims[i];
    }
    return res;
'''),
        (CD, '''    this->mit.move( (size_t) rk );
    std::vector<size_t> inds = this->mit.getIndices();
    std::vector<size_t> res(this->ndims);
    for (size_t i = 0; i < this->ndims; ++i) {
      res[i] = (inds[i] + 1) * localDims[i];
    }
    return res;
''', '''    // one sub-domain past the start
    std::vector<size_t> res = this->getBegIndices(rk);
    for (size_t i = 0; i < this->ndims; ++i) {
      res[i] += localDims[i];
    }
    return res;
'''),
    ]),
    dict(id='cd-neighbor-mod', checks='C02 C04 C05', edits=[
        (CD, '''      indOffset[i] = inds[i] + dir[i];

      // apply periodic BCs outside of domain
      if (indOffset[i] < 0) {
        indOffset[i] += this->decomp[i];
      }
      else if (indOffset[i] >= this->decomp[i]) {
        indOffset[i] -= this->decomp[i];
      }
''', '''      // apply periodic BCs outside of domain
      const int nd = (int) this->decomp[i];
      indOffset[i] = ((int) inds[i] + dir[i] + nd) % nd;
''')]),
    dict(id='cd-neighbor-while', checks='C02 C04', edits=[
        (CD, '''      if (indOffset[i] < 0) {
        indOffset[i] += this->decomp[i];
      }
      else if (indOffset[i] >= this->decomp[i]) {
        indOffset[i] -= this->decomp[i];
      }
''', '''      while (indOffset[i] < 0) indOffset[i] += this->decomp[i];
      while (indOffset[i] >= (int) this->decomp[i]) indOffset[i] -= this->decomp[i];
''')]),
    dict(id='cd-factors', checks='C03 C02', edits=[
        (CD, '''    size_t n2 = n / 2;
    for (size_t k = 2; k <= n2; ++k) {
      if ((n / k)*k == n) {
        res.push_back(k);
      }
    }
    res.push_back(n);
    return res;
''', '''    size_t k = 2;
    while (k < n) {
      if (n % k == 0) {
        res.push_back(k);
      }
      k++;
    }
    res.push_back(n);
    return res;
''')]),
    dict(id='cd-cost', checks='C03', edits=[
        (CD, '''    size_t volume = 1;
    size_t surface = 0;
    for (size_t i = 0; i < this->ndims; ++i) {
      volume *= localDims[i];
      size_t area = 1;
      for (size_t j = 0; j < this->ndims; ++j) {
        if (j != i) area *= localDims[j];
      }
      surface += area;
    }
    return (double) surface / (double) volume;
''', '''    size_t volume = std::accumulate(localDims.begin(), localDims.end(), (size_t) 1, std::multiplies<size_t>());
    size_t surface = 0;
    for (size_t i = 0; i < this->ndims; ++i) {
      // area of the face perpendicular to i
      surface += volume / localDims[i];
    }
    return static_cast<double>(surface) / static_cast<double>(volume);
''')]),
    dict(id='cd-single-pass', checks='C03 C02', edits=[
        (CD, '''    std::vector< std::vector<size_t> > validDecomps;
''', '''    bool found = false;
    std::vector<size_t> bestDecomp;
    double minCost = std::numeric_limits<double>::max();
'''),
        (CD, '''      if (n == this->nprocs) {
        validDecomps.push_back(decomp);
      }
''', '''      if (n == this->nprocs) {
        double cost = this->computeCost(decomp);
        if (!found || cost < minCost) {
          minCost = cost;
          bestDecomp = decomp;
        }
        found = true;
      }
'''),
        (CD, '''    if (validDecomps.size() == 0) {
''', '''    if (!found) {
'''),
        (CD, '''    // find the optimal decomp
    std::vector<size_t> bestDecomp = validDecomps[0];
    double minCost = std::numeric_limits<double>::max();
    for (size_t i = 0; i < validDecomps.size(); ++i) {
      double cost = this->computeCost(validDecomps[i]);
      if (cost < minCost) {
        minCost = cost;
        bestDecomp = validDecomps[i];
      }
    }

''', ''),
    ]),
    dict(id='cd-minelement', checks='C03 C02', edits=[
        (CD, '#include "CubeDecomp.h"\n', '#include "CubeDecomp.h"\n#include <algorithm>\n'),
        (CD, '''    std::vector<size_t> bestDecomp = validDecomps[0];
    double minCost = std::numeric_limits<double>::max();
    for (size_t i = 0; i < validDecomps.size(); ++i) {
      double cost = this->computeCost(validDecomps[i]);
      if (cost < minCost) {
        minCost = cost;
        bestDecomp = validDecomps[i];
      }
    }
''', '''    const std::vector<size_t> bestDecomp = *std::min_element(validDecomps.begin(), validDecomps.end(),
      [this](const std::vector<size_t>& a, const std::vector<size_t>& b) {
        return this->computeCost(a) < this->computeCost(b);
      });
''')]),
    dict(id='fi-fillwindows', checks='C04 C05 C06 C07 C18 C20', edits=[
        (FH, 'private:', '''private:

  /** copy the values of a field into the source buffers of the windows */
  void fillWindows(const std::vector<double>& field);
'''),
        (FC, WIN % 'inData', '    this->fillWindows(this->inData);\n'),
        (FC, WIN % 'outData', '    this->fillWindows(this->outData);\n'),
        (FC, 'void \nFilter::copyOutToIn() {', '''void
Filter::fillWindows(const std::vector<double>& field) {
    for (auto& kv : this->winData) {
      double* const srcData = kv.second.first;
      MultiArrayIter& wit = this->winIter.find(kv.first)->second;
      wit.begin();
      for (size_t i = 0; i < wit.getNumberOfTerms(); ++i, wit.next()) {
        srcData[i] = field[this->mit.computeBigIndex(wit.getIndices())];
      }
    }
}

void 
Filter::copyOutToIn() {'''),
    ]),
    dict(id='fi-copy-algos', checks='C04 C05 C06 C07 C18', edits=[
        (FC, '#include "Filter.h"\n', '#include "Filter.h"\n#include <algorithm>\n#include <numeric>\n'),
        (FC, '''    for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
      this->inData[i] = this->outData[i];
    }
''', '''    this->inData = this->outData;
'''),
        (FC, '''    this->mit.begin();
    for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
      this->outData[i] = 0;
      this->mit.next();
    }
''', '''    std::fill(this->outData.begin(), this->outData.end(), 0.0);
'''),
        (FC, '''    this->mit.begin();
    if (inOrOut == "input") {
      for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
        localSum += this->inData[i];
        this->mit.next();
      }
    }
    else {
      for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
        localSum += this->outData[i];
        this->mit.next();
      }
    }
''', '''    const std::vector<double>& data = (inOrOut == "input" ? this->inData : this->outData);
    localSum = std::accumulate(data.begin(), data.end(), 0.0);
'''),
    ]),
    dict(id='fi-copy-algos2', checks='C04 C05 C06 C07 C18', edits=[
        (FC, '#include "Filter.h"\n', '#include "Filter.h"\n#include <algorithm>\n#include <numeric>\n'),
        (FC, '''    for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
      this->inData[i] = this->outData[i];
    }
''', '''    std::copy(this->outData.begin(), this->outData.end(), this->inData.begin());
'''),
        (FC, '''    this->mit.begin();
    for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
      this->outData[i] = 0;
      this->mit.next();
    }
''', '''    this->outData.assign(this->outData.size(), 0.0);
'''),
        (FC, '''    this->mit.begin();
    if (inOrOut == "input") {
      for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
        localSum += this->inData[i];
        this->mit.next();
      }
    }
    else {
      for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
        localSum += this->outData[i];
        this->mit.next();
      }
    }
''', '''    const double* data = this->outData.data();
    if (inOrOut.compare("input") == 0) data = this->inData.data();
    const size_t n = this->mit.getNumberOfTerms();
    for (size_t i = 0; i < n; ++i) {
      localSum += *data++;
    }
'''),
    ]),
    dict(id='fi-side-sign', checks='C04 C05 C06 C09', edits=[
        (FC, '''      side[i] = 0;
      if (offset[i] != 0) {
          side[i] = - offset[i]/std::abs(offset[i]);
      }
''', '''      side[i] = (offset[i] < 0) - (offset[i] > 0);
''')]),
    dict(id='fi-side-ternary', checks='C04 C05 C09', edits=[
        (FC, '''      side[i] = 0;
      if (offset[i] != 0) {
          side[i] = - offset[i]/std::abs(offset[i]);
      }
''', '''      side[i] = offset[i] == 0 ? 0 : (offset[i] > 0 ? -1 : 1);
''')]),
    dict(id='fi-apply-helper', checks='C04 C05 C06', edits=[
        (FH, 'private:', '''private:

  bool shiftIndices(const std::vector<size_t>& inds, const std::vector<int>& offset,
                    std::vector<int>& res) const;
'''),
        (FC, '''        // indices with offsets
        std::vector<int> indOffset(this->ndims);

        // apply the stencil offset & check that we are still in the 
        // sub-domain
        bool insideLocalDomain = true;
        for (size_t j = 0; j < this->ndims; ++j) {
          indOffset[j] = (int) inds[j] + offset[j];
          // periodic boundary conditions
          const int numCells = (int) this->globalDims[j];
          indOffset[j] = ((indOffset[j] % numCells) + numCells) % numCells;

          // check if inside local MPI domain
          insideLocalDomain &= (indOffset[j] >= (int) this->lo[j]);
          insideLocalDomain &= (indOffset[j] < (int) this->hi[j]);
        }

        if (insideLocalDomain) {
          // local update
          int bi2 = this->mit.computeBigIndex(indOffset);
          this->outData[i] += val * this->inData[(size_t) bi2];
        }
        else if (dstData) {
          // update using halo data
          size_t bi2 = wit.computeBigIndex(indOffset);
          // update ghosts
          this->outData[i] += val * dstData[bi2];
        }
''', '''        std::vector<int> indOffset(this->ndims);
        if (this->shiftIndices(inds, offset, indOffset)) {
          this->outData[i] += val * this->inData[this->mit.computeBigIndex(indOffset)];
        }
        else if (dstData != NULL) {
          this->outData[i] += val * dstData[wit.computeBigIndex(indOffset)];
        }
'''),
        (FC, 'void \nFilter::applyFilter() {', '''bool
Filter::shiftIndices(const std::vector<size_t>& inds, const std::vector<int>& offset,
                     std::vector<int>& res) const {
    bool inside = true;
    for (size_t j = 0; j < this->ndims; ++j) {
      const int n = static_cast<int>(this->globalDims[j]);
      int k = (static_cast<int>(inds[j]) + offset[j]) % n;
      if (k < 0) k += n;
      res[j] = k;
      if (k < (int) this->lo[j] || k >= (int) this->hi[j]) {
        inside = false;
      }
    }
    return inside;
}

void 
Filter::applyFilter() {'''),
    ]),
    dict(id='fi-range-for', checks='C04 C05 C06 C08 C09', edits=[
        (FC, '''    for (std::map< std::vector<int>, double >::const_iterator it = this->stencil.begin();
           it != this->stencil.end(); ++it) {
      
      // displacement from the base cell
      const std::vector<int>& offset = it->first;
      // the stencil's weight
      const double val = it->second;
''', '''    for (const auto& branch : this->stencil) {
      const std::vector<int>& offset = branch.first;
      const double val = branch.second;
'''),
        (FC, '''    for (std::map< std::vector<int>, size_t >::const_iterator it = this->winNumGhosts.begin(); 
      it != this->winNumGhosts.end(); ++it) {
      this->newWindow(it->first);
    }
''', '''    for (const auto& sg : this->winNumGhosts) this->newWindow(sg.first);
'''),
        (FC, '''     for (std::map< std::vector<int>, MPI_Win >::const_iterator it = this->windows.begin();
       it != this->windows.end(); ++it) {
       this->deleteWindow(it->first);
     }
''', '''     for (auto& w : this->windows) {
       MPI_Win_free(&w.second);
     }
     for (auto& d : this->winData) {
       MPI_Free_mem(d.second.second);
       MPI_Free_mem(d.second.first);
     }
'''),
        (FC, '''      std::pair< std::vector<int>, size_t > pSNG(side, numGhosts);
      size_t& sideGhosts = this->winNumGhosts.insert(pSNG).first->second;
      if (numGhosts > sideGhosts) {
        sideGhosts = numGhosts;
      }
''', '''      size_t& sideGhosts = this->winNumGhosts[side];
      sideGhosts = std::max(sideGhosts, numGhosts);
'''),
        (FC, '#include "Filter.h"\n', '#include "Filter.h"\n#include <algorithm>\n'),
    ]),
    dict(id='fi-newwindow', checks='C05 C06 C08 C09', edits=[
        (FC, '''    std::pair<double*, double*> pSrcDst(srcData, dstData);
    this->winData.insert( std::pair< std::vector<int>, std::pair<double*, double*> >(side, pSrcDst) );
    this->windows.insert( std::pair< std::vector<int>, MPI_Win >(side, win) );
    this->winIter.insert( std::pair< std::vector<int>, MultiArrayIter >(side, sit) );
''', '''    this->winIter.insert(std::make_pair(side, sit));
    this->windows[side] = win;
    this->winData[side] = std::make_pair(srcData, dstData);
'''),
        (FC, '''    double* srcData = 0;
    double* dstData = 0;
    MPI_Alloc_mem(sizeof(double)*n, MPI_INFO_NULL, &srcData);
    MPI_Alloc_mem(sizeof(double)*n, MPI_INFO_NULL, &dstData);

    MPI_Win win;
    MPI_Win_create(srcData, n*sizeof(double), sizeof(double), 
                   MPI_INFO_NULL, MPI_COMM_WORLD, &win);
''', '''    double* srcData = NULL;
    double* dstData = NULL;
    const MPI_Aint numBytes = n * sizeof(double);
    MPI_Alloc_mem(numBytes, MPI_INFO_NULL, &srcData);
    MPI_Alloc_mem(numBytes, MPI_INFO_NULL, &dstData);

    MPI_Win win = MPI_WIN_NULL;
    MPI_Win_create(srcData, numBytes, sizeof(double), MPI_INFO_NULL, MPI_COMM_WORLD, &win);
'''),
    ]),
    dict(id='fi-fetch-fence', checks='C05 C06 C09', edits=[
        (FC, '''  MPI_Win_fence((MPI_MODE_NOPUT | MPI_MODE_NOPRECEDE), win);
      
  MPI_Get(dstData, n, MPI_DOUBLE, otherRank, 0, n, MPI_DOUBLE, win);

  MPI_Win_fence(MPI_MODE_NOSUCCEED, win);

  return dstData;
''', '''  MPI_Win_fence(0, win);
  MPI_Get(dstData, n, MPI_DOUBLE, otherRank, 0, n, MPI_DOUBLE, win);
  MPI_Win_fence(0, win);
  return this->winData.find(side)->second.second;
''')]),
    dict(id='fi-winiter', checks='C04 C05 C06', edits=[
        (FC, '''    // narrow the start/end indices to the window size
    size_t n = 1;
    for (size_t i = 0; i < this->ndims; ++i) {
      if (side[i] != 0) {
        n *= numGhosts;
        if (side[i] < 0) {
          // low side
          sHi[i] = sLo[i] + numGhosts;
        }
        else {
          // hi side
          sLo[i] = sHi[i] - numGhosts;
        }
      }
      else {
        n *= (this->hi[i] - this->lo[i]);
      }
    }
''', '''    for (size_t i = 0; i < this->ndims; ++i) {
      switch (side[i]) {
        case -1:
          sHi[i] = sLo[i] + numGhosts;
          break;
        case 1:
          sLo[i] = sHi[i] - numGhosts;
          break;
        default:
          break;
      }
    }
''')]),
    dict(id='fi-savevtk', checks='C07 C16 C20', edits=[
        (FC, '''    size_t ntot = 1;
    for (size_t i = 0; i < this->ndims; ++i) {
      ntot *= globalDims[i];
    }

    int nLocal = (int) this->outData.size();

    std::vector<double> recvBuffer;
    if (this->rk == 0) {
      recvBuffer.resize(ntot);
    }
''', '''    const int nLocal = (int) this->outData.size();
    const size_t ntot = (size_t) nLocal * (size_t) this->sz;
    const bool isRoot = (this->rk == 0);
    std::vector<double> recvBuffer(isRoot ? ntot : 0);
'''),
        (FC, '''        for (size_t iLocal = 0; iLocal < this->mit.getNumberOfTerms(); ++iLocal) {
          std::vector<size_t> localInds = this->mit.getIndices();
          for (size_t i = 0; i < this->ndims; ++i) {
            globalInds[i] = begInds[i] + localInds[i];
          }
          size_t globalBigIndex = globalIt.computeBigIndex(globalInds);
          globalField[globalBigIndex] = recvBuffer[rk*nLocal + iLocal];
          this->mit.next();
        }
''', '''        const double* chunk = recvBuffer.data() + rk*nLocal;
        for (size_t iLocal = 0; iLocal < this->mit.getNumberOfTerms(); ++iLocal) {
          globalInds = this->mit.getIndices();
          for (size_t i = 0; i < this->ndims; ++i) {
            globalInds[i] += begInds[i];
          }
          globalField[globalIt.computeBigIndex(globalInds)] = chunk[iLocal];
          this->mit.next();
        }
'''),
    ]),
    dict(id='fi-ghosts', checks='C05 C06 C09', edits=[
        (FC, '#include "Filter.h"\n', '#include "Filter.h"\n#include <algorithm>\n'),
        (FC, '''    for (size_t i = 0; i < offset.size(); ++i) {
      size_t absOffset = std::abs(offset[i]);
      numGhosts = (absOffset > numGhosts? absOffset: numGhosts);
    }
''', '''    for (int o : offset) {
      numGhosts = std::max(numGhosts, (size_t) (o < 0 ? -o : o));
    }
'''),
        (FC, '''    size_t res = 0;
    for (size_t i = 0; i < v.size(); ++i) {
      if (v[i] != 0) {
        res++;
      }
    }
    return res;
''', '''    return v.size() - std::count(v.begin(), v.end(), 0);
''')]),
    dict(id='fi-setin', checks='C04 C06 C07', edits=[
        (FC, '''    this->mit.begin();
    for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
      std::vector<size_t> inds = this->mit.getIndices();
      std::vector<double> pos = this->getPosition(inds);
      this->inData[i] = f(pos);
      this->mit.next();
    }
''', '''    size_t count = 0;
    for (double& value : this->inData) {
      this->mit.move(count++);
      value = f(this->getPosition(this->mit.getIndices()));
    }
'''),
        (FC, '''      double delta = (this->xmaxs[i] - this->xmins[i])/ double(this->globalDims[i]);
      // cell centered
      pos[i] = this->xmins[i] + (globalInds[i] + 0.5) * delta;
''', '''      const double len = this->xmaxs[i] - this->xmins[i];
      const double delta = len / static_cast<double>(this->globalDims[i]);
      pos[i] = this->xmins[i] + (0.5 + globalInds[i]) * delta;
''')]),
    dict(id='fi-members', checks='C04 C05 C06', edits=[
        (FC, '''    MPI_Comm_rank(MPI_COMM_WORLD, &this->rk);
    MPI_Comm_size(MPI_COMM_WORLD, &this->sz);

''', ''),
        (FC, '''    this->validDecomp = false;
    this->ndims = globalDims.size();

    this->globalDims = globalDims;
    this->xmins = xmins;
    this->xmaxs = xmaxs;
''', '''    MPI_Comm_size(MPI_COMM_WORLD, &sz);
    MPI_Comm_rank(MPI_COMM_WORLD, &rk);
'''),
        (FC, '''    const std::map< std::vector<int>, double >& stencil) {
''', '''    const std::map< std::vector<int>, double >& stencil) :
    xmins(xmins), xmaxs(xmaxs), globalDims(globalDims), stencil(stencil), ndims(globalDims.size()), validDecomp(false) {
'''),
        (FC, '''    // save the stencil
    this->stencil = stencil;
''', ''),
    ]),
]
