/* Macros of the C sources that the Cython modules use as functions. */
#include "fmfield.h"

void (FMF_SetCell)(FMField *obj, int32 n) { FMF_SetCell(obj, n); }
void (FMF_SetCellX1)(FMField *obj, int32 n) { FMF_SetCellX1(obj, n); }
