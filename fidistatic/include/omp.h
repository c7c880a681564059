/* The compiler's own OpenMP header, with GNU attributes the analysis front end
   does not know removed.  FIDI_OMP_H is set by the driver to gcc's omp.h. */
#ifndef FIDI_OMP_WRAPPER
#define FIDI_OMP_WRAPPER
#define __attribute__(x)
#include FIDI_OMP_H
#undef __attribute__
#endif
